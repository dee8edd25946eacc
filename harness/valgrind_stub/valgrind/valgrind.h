// stands in for the header of valgrind: requests are recorded by the harness
#pragma once
extern "C" unsigned vg_register( void * a, void * b);
extern "C" void vg_deregister( unsigned id);
#define VALGRIND_STACK_REGISTER( a, b) vg_register( (a), (b))
#define VALGRIND_STACK_DEREGISTER( id) vg_deregister( id)
