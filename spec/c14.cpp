// C14: removing double counting merges parallel edges exactly.
#include "common.hpp"
#include <algorithm>

namespace spec
{
void c14()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    net.remove_double_counting();
    size_t n = vf::size( "n" );
    size_t r = vf::pick( "r", n );
    size_t i = vf::pick( "i", n );
    vf::same( "the agents stay", net.agents.size(), n );
    vf::same( "the agents stay", net.agents[i].data.opinion, vf::real( "x", i ) );
    vf::holds( "the direction stays", net.direction() == Network<SimpleAgent>::EdgeDirection::Incoming );
    auto nb = net.get_neighbours( r );
    auto w  = net.get_weights( r );
    vf::same( "one weight per neighbour", w.size(), nb.size() );
    size_t a = vf::pick( "a", nb.size() );
    size_t b = vf::pick( "b", nb.size() );
    vf::holds( "the neighbours are strictly increasing", ( a < b ) == ( nb[a] < nb[b] ) );
    size_t k    = vf::pick( "k", n );
    bool before = false, after = false;
    double sum = 0.0, now = 0.0;
    for( size_t j = 0; j < vf::size( "deg", r ); j++ )
    {
        if( vf::index( "nb", n, r, j ) == k )
        {
            before = true;
            sum += vf::real( "w", r, j );
        }
    }
    for( size_t j = 0; j < nb.size(); j++ )
    {
        if( nb[j] == k )
        {
            after = true;
            now += w[j];
        }
    }
    vf::holds( "exactly the neighbours there were before", before == after );
    vf::same( "each carries the sum of its weights", now, sum );
}
} // namespace spec
