// C17: regular networks have the right neighbours and weights.
#include "common.hpp"
#include "network_generation.hpp"
#include <algorithm>

namespace spec
{
void c17_fully()
{
    size_t n = vf::size( "n" );
    auto net = NetworkGeneration::generate_fully_connected<SimpleAgent>( n, vf::real( "weight" ) );
    size_t i = vf::pick( "i", n );
    size_t j = vf::pick( "j", n );
    vf::same( "one row per agent", net.n_agents(), n );
    vf::holds( "incoming edges", net.direction() == Network<SimpleAgent>::EdgeDirection::Incoming );
    vf::same( "every agent a neighbour", net.get_neighbours( i ).size(), n );
    vf::same( "one weight per neighbour", net.get_weights( i ).size(), n );
    vf::same( "every agent a neighbour", net.get_neighbours( i )[j], j );
    vf::same( "with the constant weight", net.get_weights( i )[j], vf::real( "weight" ) );
}

// agent x + e*y of the e*e lattice; its neighbours are one step away in x or in y, around the edges
void c17_lattice()
{
    size_t e = vf::size( "e" );
    auto net = NetworkGeneration::generate_square_lattice<SimpleAgent>( e, vf::real( "weight" ) );
    vf::same( "e*e agents", net.n_agents(), e * e );
    vf::holds( "incoming edges", net.direction() == Network<SimpleAgent>::EdgeDirection::Incoming );
    size_t x = vf::pick( "x", e ), y = vf::pick( "y", e );
    size_t r     = x + e * y;
    size_t left  = x == 0 ? e - 1 : x - 1;
    size_t right = x + 1 == e ? 0 : x + 1;
    size_t up    = y == 0 ? e - 1 : y - 1;
    size_t down  = y + 1 == e ? 0 : y + 1;
    auto nb      = net.get_neighbours( r );
    vf::same( "four neighbours", nb.size(), 4 );
    vf::same( "four weights", net.get_weights( r ).size(), 4 );
    size_t j = vf::pick( "j", 4 );
    vf::same( "with the constant weight", net.get_weights( r )[j], vf::real( "weight" ) );
    // in the order left, right, up, down
    vf::lemma( "exactly the four periodic neighbours", nb.size(), 4 );
    vf::lemma( "exactly the four periodic neighbours", nb[0], left + e * y );
    vf::lemma( "exactly the four periodic neighbours", nb[1], right + e * y );
    vf::lemma( "exactly the four periodic neighbours", nb[2], x + e * up );
    vf::lemma( "exactly the four periodic neighbours", nb[3], x + e * down );
    std::vector<size_t> there( nb.begin(), nb.end() );
    std::vector<size_t> expected{ left + e * y, right + e * y, x + e * up, x + e * down };
    std::sort( there.begin(), there.end() );
    std::sort( expected.begin(), expected.end() );
    vf::same( "exactly the four periodic neighbours", there[j], expected[j] );
}
} // namespace spec
