// A second translation unit of ctx_replay.cpp: the public headers may be included in several, all of them together.
#include <memory>
#include <boost/context/continuation.hpp>
#include <boost/context/fiber.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#if defined(BOOST_USE_WINFIB)
#include <boost/context/windows/protected_fixedsize_stack.hpp>
#else
#include <boost/context/protected_fixedsize_stack.hpp>
#endif
#include <boost/context/preallocated.hpp>
#include <boost/context/stack_traits.hpp>
#if defined(BOOST_USE_SEGMENTED_STACKS)
#include <boost/context/segmented_stack.hpp>
#endif
#include "crowd.hpp"
#if defined(CROWD)
# if defined(IF_CALLCC)
Member * crowd_other( int id) { return new MemberOf< boost::context::fiber >( id); }
# else
Member * crowd_other( int id) { return new MemberOf< boost::context::continuation >( id); }
# endif
#endif
