// C05: a Deffuant iteration is N interactions of properly drawn pairs; the lattice.
#include "common.hpp"
#include "models/DeffuantModel.hpp"
#include "util/math.hpp"

namespace spec
{
// the opinions after one pair interaction
inline void interact( std::vector<double> & y, size_t i, size_t j )
{
    double diff = y[i] - y[j];
    if( std::abs( diff ) < vf::real( "threshold" ) )
    {
        y[i] -= vf::real( "mu" ) * diff;
        y[j] += vf::real( "mu" ) * diff;
    }
}

void c05()
{
    auto net      = any_network<SimpleAgent>();
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( !settings.use_network );
    DeffuantModel model( settings, net, gen );
    model.iteration();
    any_opinions( net, "x" );
    vf::mark( "g" );
    model.iteration();

    vf::rewind( "g" );
    std::vector<double> y;
    size_t n = vf::size( "n" );
    for( size_t i = 0; i < n; i++ )
    {
        y.push_back( vf::real( "x", i ) );
    }
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<size_t> pair;
        draw_unique_k_from_n( std::nullopt, 2, n, pair, gen );
        if( pair.size() == 2 ) // nobody interacts with itself
            interact( y, pair[0], pair[1] );
    }
    size_t i = vf::pick( "i", n );
    vf::same( "opinions after N interactions of freshly drawn pairs", net.agents[i].data.opinion, y[i] );
    same_network( "the network stays", net );
}

void c05_free_pair()
{
    vf::assume( vf::size( "n" ) >= 2 );
    auto net      = any_network<SimpleAgent>();
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( !settings.use_network );
    DeffuantModel model( settings, net, gen );
    auto pair = model.select_interacting_agent_pair();
    std::vector<size_t> expected{ 7, 8, 9 };
    vf::rewind( "g" );
    draw_unique_k_from_n( std::nullopt, 2, vf::size( "n" ), expected, gen );
    vf::same( "a pair has two members", pair.size(), expected.size() );
    vf::same( "the first is drawn without repetition from all agents", pair[0], expected[0] );
    vf::same( "so is the second", pair[1], expected[1] );
}

// with the lattice: the model replaces the network and draws along its edges
void c05_lattice()
{
    size_t e = vf::size( "e" );
    vf::assume( e >= 1 );
    Network<SimpleAgent> net( e * e );
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( settings.use_network );
    DeffuantModel model( settings, net, gen );
    auto lattice = NetworkGeneration::generate_square_lattice<SimpleAgent>( e );
    size_t r     = vf::pick( "x", e ) + e * vf::pick( "y", e );
    vf::same( "the network becomes the lattice", net.n_agents(), e * e );
    vf::same( "the network becomes the lattice", net.get_neighbours( r ).size(), lattice.get_neighbours( r ).size() );
    size_t j = vf::pick( "j", 4 );
    vf::same( "the network becomes the lattice", net.get_neighbours( r )[j], lattice.get_neighbours( r )[j] );
    vf::same( "the network becomes the lattice", net.get_weights( r ).size(), lattice.get_weights( r ).size() );
    vf::same( "the network becomes the lattice", net.get_weights( r )[j], lattice.get_weights( r )[j] );
}

// the partner comes from the neighbours of the first
void c05_network_pair()
{
    size_t n = vf::size( "n" );
    vf::assume( n >= 1 );
    auto net      = any_network<SimpleAgent>();
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( settings.use_network );
    // the rows are arbitrary: that they are the lattice's is shown above
    auto f = []( size_t, double ) { return any_network<SimpleAgent>(); };
    vf::replace( "Seldon::NetworkGeneration::generate_square_lattice", f );
    vf::assume( !vf::throws( [&] { DeffuantModel square( settings, net, gen ); } ) );
    DeffuantModel model( settings, net, gen );
    vf::mark( "g" );
    auto pair = model.select_interacting_agent_pair();
    vf::rewind( "g" );
    std::uniform_int_distribution<size_t> all( 0, n - 1 );
    size_t first = all( gen );
    std::uniform_int_distribution<size_t> of( 0, vf::size( "deg", first ) - 1 );
    size_t which = of( gen );
    vf::same( "a pair has two members", pair.size(), 2 );
    vf::same( "the first is drawn from all agents", pair[0], first );
    vf::same( "the partner is drawn from the neighbours of the first", pair[1], vf::index( "nb", n, first, which ) );
}

// q*q + r with 0 < r <= 2*q is not a square
void c05_no_square()
{
    size_t q = vf::size( "q" );
    vf::assume( q >= 1 );
    size_t r = vf::pick( "r", 2 * q );
    Network<SimpleAgent> net( q * q + r + 1 );
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( settings.use_network );
    vf::holds( "a number of agents that is no square is rejected", vf::throws( [&] { DeffuantModel model( settings, net, gen ); } ) );
}
} // namespace spec
