// C12: neighbour and weight lists stay parallel.
#include "common.hpp"

namespace spec
{
using Net = Network<SimpleAgent>;

// every row has as many weights as neighbours, and there is one row per agent
void parallel( const char * what, Net & net )
{
    vf::same( what, net.n_agents(), vf::size( "n" ) );
    size_t r = vf::pick( "r", vf::size( "n" ) );
    vf::same( what, net.get_neighbours( r ).size(), net.get_weights( r ).size() );
    vf::same( what, net.n_edges( r ), net.get_neighbours( r ).size() );
}

// row r holds what any_network() put there
void untouched( const char * what, Net & net, size_t r )
{
    vf::same( what, net.get_neighbours( r ).size(), vf::size( "deg", r ) );
    vf::same( what, net.get_weights( r ).size(), vf::size( "deg", r ) );
    size_t j = vf::pick( "j", vf::size( "deg", r ) );
    vf::same( what, net.get_neighbours( r )[j], vf::index( "nb", vf::size( "n" ), r, j ) );
    vf::same( what, net.get_weights( r )[j], vf::real( "w", r, j ) );
}

void same_agents( const char * what, Net & net )
{
    size_t i = vf::pick( "i", vf::size( "n" ) );
    vf::same( what, net.agents.size(), vf::size( "n" ) );
    vf::same( what, net.agents[i].data.opinion, vf::real( "x", i ) );
}

std::vector<size_t> new_neighbours()
{
    std::vector<size_t> v;
    for( size_t k = 0; k < vf::size( "len" ); k++ )
    {
        v.push_back( vf::index( "new", vf::size( "n" ), k ) );
    }
    return v;
}

std::vector<double> new_weights( const char * length )
{
    std::vector<double> v;
    for( size_t k = 0; k < vf::size( length ); k++ )
    {
        v.push_back( vf::real( "neww", k ) );
    }
    return v;
}

void c12_construct()
{
    Net sized( vf::size( "n" ) );
    parallel( "a network of n agents", sized );
    size_t r = vf::pick( "r", vf::size( "n" ) );
    vf::same( "a network of n agents has no edges", sized.n_edges( r ), 0 );
    std::vector<SimpleAgent> agents( vf::size( "n" ) );
    for( size_t i = 0; i < vf::size( "n" ); i++ )
    {
        agents[i].data.opinion = vf::real( "x", i );
    }
    Net of( agents );
    parallel( "a network of given agents", of );
    same_agents( "a network of given agents keeps them", of );
    vf::same( "a network of given agents has no edges", of.n_edges( r ), 0 );
    auto lists = any_network<SimpleAgent>();
    parallel( "a network of given lists", lists );
    untouched( "a network of given lists keeps them", lists, r );
    vf::holds( "a network of given lists keeps the direction", lists.direction() == Net::EdgeDirection::Incoming );
    size_t total = 0;
    for( size_t i = 0; i < vf::size( "n" ); i++ )
    {
        total += vf::size( "deg", i );
    }
    vf::same( "the number of edges", lists.n_edges(), total );
    const Net & view = lists;
    size_t j         = vf::pick( "j", vf::size( "deg", r ) );
    vf::same( "reading changes nothing", view.get_neighbours( r ).size(), vf::size( "deg", r ) );
    vf::same( "reading changes nothing", view.get_weights( r ).size(), vf::size( "deg", r ) );
    vf::same( "reading changes nothing", view.get_neighbours( r )[j], vf::index( "nb", vf::size( "n" ), r, j ) );
    vf::same( "reading changes nothing", view.get_weights( r )[j], vf::real( "w", r, j ) );
}

void c12_set_weights()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    size_t a = vf::pick( "a", vf::size( "n" ) );
    size_t r = vf::pick( "r", vf::size( "n" ) );
    auto w   = new_weights( "len" );
    bool bad = vf::throws( [&] { net.set_weights( a, w ); } );
    vf::holds( "set_weights rejects exactly a wrong length", bad == ( vf::size( "len" ) != vf::size( "deg", a ) ) );
    parallel( "after set_weights", net );
    same_agents( "set_weights keeps the agents", net );
    vf::same( "set_weights keeps the neighbours", net.get_neighbours( r ).size(), vf::size( "deg", r ) );
    size_t j = vf::pick( "j", vf::size( "deg", r ) );
    vf::same( "set_weights keeps the neighbours", net.get_neighbours( r )[j], vf::index( "nb", vf::size( "n" ), r, j ) );
    vf::same( "set_weights stores the weights", net.get_weights( r )[j], ( r == a && !bad ) ? vf::real( "neww", j ) : vf::real( "w", r, j ) );
}

void c12_set_both()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    size_t a = vf::pick( "a", vf::size( "n" ) );
    size_t r = vf::pick( "r", vf::size( "n" ) );
    auto v   = new_neighbours();
    auto w   = new_weights( "wlen" );
    bool bad = vf::throws( [&] { net.set_neighbours_and_weights( a, v, w ); } );
    vf::holds( "set_neighbours_and_weights rejects exactly different lengths", bad == ( vf::size( "len" ) != vf::size( "wlen" ) ) );
    parallel( "after set_neighbours_and_weights", net );
    same_agents( "set_neighbours_and_weights keeps the agents", net );
    bool here  = r == a && !bad;
    size_t deg = here ? vf::size( "len" ) : vf::size( "deg", r );
    vf::same( "set_neighbours_and_weights stores the lists", net.get_neighbours( r ).size(), deg );
    size_t j = vf::pick( "j", deg );
    vf::same( "set_neighbours_and_weights stores the lists", net.get_neighbours( r )[j], here ? vf::index( "new", vf::size( "n" ), j ) : vf::index( "nb", vf::size( "n" ), r, j ) );
    vf::same( "set_neighbours_and_weights stores the lists", net.get_weights( r )[j], here ? vf::real( "neww", j ) : vf::real( "w", r, j ) );
}

void c12_set_constant()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    size_t a = vf::pick( "a", vf::size( "n" ) );
    size_t r = vf::pick( "r", vf::size( "n" ) );
    auto v   = new_neighbours();
    net.set_neighbours_and_weights( a, v, vf::real( "weight" ) );
    parallel( "after set_neighbours_and_weights (constant)", net );
    same_agents( "set_neighbours_and_weights (constant) keeps the agents", net );
    bool here  = r == a;
    size_t deg = here ? vf::size( "len" ) : vf::size( "deg", r );
    vf::same( "set_neighbours_and_weights (constant) stores the list", net.get_neighbours( r ).size(), deg );
    size_t j = vf::pick( "j", deg );
    vf::same( "set_neighbours_and_weights (constant) stores the list", net.get_neighbours( r )[j], here ? vf::index( "new", vf::size( "n" ), j ) : vf::index( "nb", vf::size( "n" ), r, j ) );
    vf::same( "set_neighbours_and_weights (constant) stores the weight", net.get_weights( r )[j], here ? vf::real( "weight" ) : vf::real( "w", r, j ) );
}

void c12_push()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    size_t a = vf::pick( "a", vf::size( "n" ) );
    size_t r = vf::pick( "r", vf::size( "n" ) );
    net.push_back_neighbour_and_weight( a, vf::index( "new", vf::size( "n" ), 0 ), vf::real( "weight" ) );
    parallel( "after push_back_neighbour_and_weight", net );
    same_agents( "push_back_neighbour_and_weight keeps the agents", net );
    size_t deg = vf::size( "deg", r ) + ( r == a ? 1 : 0 );
    vf::same( "push_back_neighbour_and_weight adds one edge", net.get_neighbours( r ).size(), deg );
    size_t j  = vf::pick( "j", deg );
    bool last = j == vf::size( "deg", r );
    vf::same( "push_back_neighbour_and_weight adds the edge", net.get_neighbours( r )[j], last ? vf::index( "new", vf::size( "n" ), 0 ) : vf::index( "nb", vf::size( "n" ), r, j ) );
    vf::same( "push_back_neighbour_and_weight adds the weight", net.get_weights( r )[j], last ? vf::real( "weight" ) : vf::real( "w", r, j ) );
}

void c12_clear()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    net.clear();
    parallel( "after clear", net );
    same_agents( "clear keeps the agents", net );
    size_t r = vf::pick( "r", vf::size( "n" ) );
    vf::same( "clear removes every edge", net.get_neighbours( r ).size(), 0 );
    vf::same( "clear removes every weight", net.get_weights( r ).size(), 0 );
}

void c12_rearranged()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    net.switch_direction_flag();
    parallel( "after switch_direction_flag", net );
    net.toggle_incoming_outgoing();
    parallel( "after toggle_incoming_outgoing", net );
    auto net2 = any_network<SimpleAgent>();
    net2.transpose();
    parallel( "after transpose", net2 );
    auto net3 = any_network<SimpleAgent>();
    net3.remove_double_counting();
    parallel( "after remove_double_counting", net3 );
}
} // namespace spec
