// Executes behaviours of spec/Forward.tla; the cases are generated, see tools/forwardmodel.py
#include "forward_cases.hpp"
#include <map>
Log lg; T rt( 4242); Args * ar = nullptr;
enum { RUN = 7, RUNTUPLE = 8, RUNEXCHANGE = 9 };
extern Entry const* const tables[]; extern long const sizes[]; extern int const ntables;
static std::map< long, void (*)( Obs &) > index_;
static void child( runner::Path & p) {
    auto it = index_.find( p.id);
    runner::status->pos = (int)p.steps.size();
    if ( it == index_.end() ) runner::fail( "harness", "no such case");
    std::vector< long > const& l = p.steps.back();
    std::vector< long > want( l.begin() + ( l[0] == RUNEXCHANGE ? 1 : 2), l.end() );
    for ( int round = 0; round < 2; ++round) {
        Obs got;
        it->second( got);
        if ( got != want) {
            std::string a, b;
            for ( long x : want) a += " " + std::to_string( x);
            for ( long x : got) b += " " + std::to_string( x);
            runner::fail( "forward", "expected%s, observed%s", a.c_str(), b.c_str() );
        }
    }
}
int main( int argc, char ** argv) {
    for ( int t = 0; t < ntables; ++t) for ( long i = 0; i < sizes[t]; ++i) index_[tables[t][i].id] = tables[t][i].fn;
    return runner::run( argc, argv, & child);
}
