// Driver shared by the conformance harnesses: reads behaviours generated from a
// specification, runs each in a child process, reports deviations as JSON lines.
//   harness FILE OUT WORKERS SEED [ONLY]
// FILE: "k v1 .. vk" (constants), then "P id n" and n lines "k i1 .. ik" per behaviour.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace runner {
struct Path { long id; std::vector< std::vector< long > > steps; };
struct Status { volatile int state; volatile int pos; char cls[24]; char msg[480]; };   // 1 ok, 2 deviation, 3 exit code 0 expected
static Status * status;
static std::vector< long > constants;
static std::vector< Path > paths;
static uint64_t seed;
static Path * path;
static bool verbose;

static inline uint64_t mix( uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = ( x ^ ( x >> 30)) * 0xbf58476d1ce4e5b9ull; x = ( x ^ ( x >> 27)) * 0x94d049bb133111ebull;
    return x ^ ( x >> 31);
}
static inline uint64_t rnd( int salt) { return mix( seed * 1000003u + (uint64_t)path->id * 8191u + (uint64_t)status->pos * 131u + (uint64_t)salt); }

[[noreturn]] static inline void done() { status->state = 1; _exit( 0); }
[[noreturn]] __attribute__((format( printf, 2, 3))) static inline void fail( const char * cls, const char * fmt, ...) {
    if ( status->state != 2) {
        va_list ap; va_start( ap, fmt);
        snprintf( status->cls, sizeof status->cls, "%s", cls);
        vsnprintf( status->msg, sizeof status->msg, fmt, ap);
        va_end( ap);
        status->state = 2;
    }
    _exit( 0);
}

static bool load( const char * file) {
    FILE * f = fopen( file, "r");
    if ( !f) return false;
    int k;
    if ( fscanf( f, "%d", & k) != 1) return false;
    constants.resize( k);
    for ( long & c : constants) if ( fscanf( f, "%ld", & c) != 1) return false;
    long id; int ns;
    while ( fscanf( f, " P %ld %d", & id, & ns) == 2) {
        paths.push_back( Path() );
        Path & p = paths.back(); p.id = id; p.steps.resize( ns);
        for ( auto & s : p.steps) {
            if ( fscanf( f, "%d", & k) != 1) return false;
            s.resize( k);
            for ( long & x : s) if ( fscanf( f, "%ld", & x) != 1) return false;
        }
    }
    fclose( f);
    return true;
}
static void json_str( FILE * o, const char * s) {
    fputc( '"', o);
    for ( ; *s; ++s) { if ( *s == '"' || *s == '\\') fputc( '\\', o); if ( (unsigned char)*s >= 32) fputc( *s, o); }
    fputc( '"', o);
}
static int run( int argc, char ** argv, void (* child)( Path &) ) {
    if ( argc < 5 || !load( argv[1]) ) { fprintf( stderr, "cannot read behaviours\n"); return 2; }
    int workers = atoi( argv[3]);
    seed = strtoull( argv[4], 0, 10);
    long only = argc > 5 ? atol( argv[5]) : -1;
    verbose = only >= 0;
    FILE * out = fopen( argv[2], "w");
    if ( !out) return 2;
    Status * sts = (Status*)mmap( 0, sizeof( Status) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Shared { volatile long next, done, steps, bad; };
    Shared * sh = (Shared*)mmap( 0, sizeof( Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const double limit = getenv( "REPLAY_TIMEOUT") ? atof( getenv( "REPLAY_TIMEOUT") ) : 20;
    fflush( out);
    std::vector< pid_t > ws;
    for ( int w = 0; w < workers; ++w) {
        pid_t pid = fork();
        if ( pid) { ws.push_back( pid); continue; }
        prctl( PR_SET_PDEATHSIG, SIGKILL);
        status = & sts[w];
        for (;;) {
            long i = __sync_fetch_and_add( & sh->next, 1);
            if ( i >= (long)paths.size() || sh->bad > 400) break;
            Path & p = paths[i];
            if ( only >= 0 && p.id != only) continue;
            memset( status, 0, sizeof *status);
            pid_t c = fork();
            if ( c == 0) {
                prctl( PR_SET_PDEATHSIG, SIGKILL);
                if ( !verbose) { int fd = open( "/dev/null", O_WRONLY); dup2( fd, 2); }
                struct rlimit rl = { 0, 0 }; setrlimit( RLIMIT_CORE, & rl);
                struct itimerval tv = { { 0, 0 }, { (time_t)limit, 0 } };
                setitimer( ITIMER_REAL, & tv, 0);
                path = & p;
                child( p);
                done();
            }
            int st = 0;
            while ( waitpid( c, & st, 0) < 0 && errno == EINTR) ;
            const char * cls = 0; char msg[500]; msg[0] = 0;
            if ( WIFSIGNALED( st) ) {
                cls = WTERMSIG( st) == SIGALRM ? "hang" : "crash";
                snprintf( msg, sizeof msg, "killed by signal %d (%s)", WTERMSIG( st), strsignal( WTERMSIG( st) ) );
            } else if ( status->state == 2) { cls = status->cls; snprintf( msg, sizeof msg, "%s", status->msg); }
            else if ( status->state == 3 && WEXITSTATUS( st) == 0) ;
            else if ( WEXITSTATUS( st) != 0 || status->state != 1) {
                cls = WEXITSTATUS( st) == 66 || WEXITSTATUS( st) == 67 ? "sanitizer" : "crash";
                snprintf( msg, sizeof msg, "process ended with exit code %d%s", WEXITSTATUS( st), status->state == 0 ? " before the end of the behaviour" : "");
            }
            __sync_fetch_and_add( & sh->done, 1);
            __sync_fetch_and_add( & sh->steps, (long)status->pos);
            if ( cls) {
                __sync_fetch_and_add( & sh->bad, strcmp( cls, "hang") ? 1 : 40);
                int at = status->pos > 0 ? status->pos - 1 : 0;
                char * buf = 0; size_t len = 0;
                FILE * m = open_memstream( & buf, & len);
                fprintf( m, "{\"path\":%ld,\"step\":%d,\"class\":\"%s\",\"msg\":", p.id, at, cls);
                json_str( m, msg);
                fprintf( m, "}\n");
                fclose( m);
                (void)!write( fileno( out), buf, len);
                free( buf);
            }
        }
        _exit( 0);
    }
    for ( pid_t w : ws) { int st; waitpid( w, & st, 0); }
    fseek( out, 0, SEEK_END);
    fprintf( out, "{\"summary\":1,\"paths\":%ld,\"steps\":%ld,\"bad\":%ld}\n", sh->done, sh->steps, sh->bad);
    fclose( out);
    return 0;
}
}
