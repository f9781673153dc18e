// C15: strongly connected components.
#include "common.hpp"
#include "connectivity.hpp"
#include "models/DeGroot.hpp"

namespace spec
{
using Components = std::vector<std::vector<size_t>>;

// a vertex other than v
inline size_t other( size_t v, size_t x )
{
    return x < v ? x : x + 1;
}

// what the visit of a vertex leaves behind, for the vertex that made it: arbitrary, but as the visit of a vertex behaves
inline void any_visit( TarjanConnectivityAlgo & t, size_t v, size_t u, size_t call )
{
    size_t n = vf::size( "n" );
    for( size_t w = 0; w < n; w++ )
    {
        if( !t.visited[w] && ( w == u || vf::boolean( "reached", call, w ) ) )
        {
            t.visited[w]   = true;
            t.processed[w] = vf::boolean( "done", call, w );
            t.num[w]       = t.index_counter + vf::size( "later", call, w );
            t.lowest[w]    = vf::size( "low", call ) + ( w == u ? 0 : vf::size( "above", call, w ) ); // no lower than that of u
        }
    }
    t.index_counter += 1 + vf::size( "more", call );
    for( size_t k = 0; k < vf::size( "left", call ); k++ )
        t.stack.push_back( other( v, vf::index( "rest", n - 1, call, k ) ) );
    t.scc_list.push_back( std::vector<size_t>{ vf::index( "found", n, call ) } );
}

// A vertex is visited: everything but the visits it makes itself
void c15_visit()
{
    size_t n = vf::size( "n" );
    vf::assume( n >= 2 ); // with one vertex no visit is made
    auto net = any_network<SimpleAgent>();
    vf::replace( "Seldon::TarjanConnectivityAlgo::run", [] {} );
    TarjanConnectivityAlgo t( net.neighbour_list );
    size_t v = vf::pick( "v", n );
    for( size_t w = 0; w < n; w++ )
    {
        bool seen      = w != v && vf::boolean( "visited", w );
        t.visited[w]   = seen;
        t.processed[w] = seen && vf::boolean( "processed", w );
        t.num[w]       = vf::size( "num", w );
        t.lowest[w]    = t.num[w]; // either will do, as is well known
    }
    t.index_counter = vf::size( "index" );
    for( size_t k = 0; k < vf::size( "height" ); k++ )
        t.stack.push_back( other( v, vf::index( "stack", n - 1, k ) ) );

    // the reference
    auto r         = t;
    size_t calls_r = 0;
    r.num[v]       = r.index_counter;
    r.lowest[v]    = r.num[v];
    r.index_counter++;
    r.visited[v] = true;
    r.stack.push_back( v );
    for( size_t u : net.get_neighbours( v ) )
    {
        if( u == v )
            continue;
        if( !r.visited[u] )
        {
            any_visit( r, v, u, calls_r );
            calls_r++;
            r.lowest[v] = std::min( r.lowest[v], r.lowest[u] );
        }
        else if( !r.processed[u] )
        {
            r.lowest[v] = std::min( r.lowest[v], r.num[u] );
        }
    }

    size_t calls = 0;
    auto visit   = [&]( size_t u )
    {
        any_visit( t, v, u, calls );
        calls++;
    };
    vf::replace_within( "Seldon::TarjanConnectivityAlgo::depth_first_search", visit );
    t.depth_first_search( v );
    size_t w = vf::pick( "w", n );
    // the component, if v is the first of one that was met
    bool root = r.lowest[v] == r.num[v];
    size_t at = vf::size( "height" ); // where v is on the stack
    size_t top = r.stack.size();
    vf::same( "a component is found exactly at its first vertex", t.scc_list.size(), calls_r + ( root ? 1 : 0 ) );
    vf::same( "the stack below stays", t.stack.size(), root ? at : top );
    size_t k = vf::pick( "k", root ? at : top );
    vf::same( "the stack below stays", t.stack[k], r.stack[k] );
    size_t members = 0, found = 0;
    for( size_t i = at; i < top; i++ )
        members += r.stack[i] == w ? 1 : 0;
    if( root )
    {
        for( size_t x : t.scc_list[calls_r] )
            found += x == w ? 1 : 0;
        vf::same( "everything from it upwards is the component", found, members );
    }
    vf::holds( "its members are done with, and no others", bool( t.processed[w] ) == ( r.processed[w] || ( root && members > 0 ) ) );
    vf::same( "as many visits", calls, calls_r );
    vf::same( "the lowest number that is reached", t.lowest[v], r.lowest[v] );
    vf::same( "the vertices are numbered in the order of their visits", t.num[v], r.num[v] );
    vf::same( "and the next number is free", t.index_counter, r.index_counter );
    vf::holds( "who has been visited", bool( t.visited[w] ) == bool( r.visited[w] ) );
}

// with one vertex the only edges lead back to it
void c15_single()
{
    std::vector<std::vector<size_t>> rows;
    rows.push_back( std::vector<size_t>( vf::size( "loops" ), 0 ) );
    vf::replace( "Seldon::TarjanConnectivityAlgo::run", [] {} );
    TarjanConnectivityAlgo t( rows );
    t.index_counter = vf::size( "index" );
    t.depth_first_search( 0 );
    vf::same( "a vertex alone is a component", t.scc_list.size(), 1 );
    vf::same( "a vertex alone is a component", t.scc_list[0].size(), 1 );
    vf::same( "a vertex alone is a component", t.scc_list[0][0], 0 );
    vf::same( "nothing is left", t.stack.size(), 0 );
    vf::holds( "it is done with", t.visited[0] && t.processed[0] );
}

// every vertex is visited, from itself or on the way
void c15_all()
{
    size_t n = vf::size( "n" );
    auto net = any_network<SimpleAgent>();
    // what the visit of u reaches
    TarjanConnectivityAlgo * algorithm = nullptr;
    std::vector<bool> seen( n, false );
    std::vector<size_t> from, expected;
    bool fresh = true;
    auto visit = [&]( size_t u )
    {
        from.push_back( u );
        for( size_t w = 0; w < n; w++ )
            if( w == u || vf::boolean( "reached", u, w ) )
                algorithm->visited[w] = true;
    };
    vf::replace( "Seldon::TarjanConnectivityAlgo::run", [] {} );
    TarjanConnectivityAlgo t( net.neighbour_list );
    algorithm = &t;
    size_t w  = vf::pick( "w", n );
    vf::same( "no component at first", t.scc_list.size(), 0 );
    vf::same( "nothing on the stack", t.stack.size(), 0 );
    vf::holds( "nothing visited", !t.visited[w] && !t.processed[w] );
    vf::same( "the edges are the network's", t.adjacency_list[w].size(), vf::size( "deg", w ) );
    size_t j = vf::pick( "j", vf::size( "deg", w ) );
    vf::same( "the edges are the network's", t.adjacency_list[w][j], vf::index( "nb", n, w, j ) );
    vf::restore( "Seldon::TarjanConnectivityAlgo::run" );
    vf::replace( "Seldon::TarjanConnectivityAlgo::depth_first_search", visit );
    t.run();
    for( size_t i = 0; i < n; i++ )
    {
        if( !seen[i] )
        {
            expected.push_back( i );
            for( size_t x = 0; x < n; x++ )
                if( x == i || vf::boolean( "reached", i, x ) )
                    seen[x] = true;
        }
    }
    vf::same( "one visit from each vertex not seen before", from.size(), expected.size() );
    size_t k = vf::pick( "k", expected.size() );
    vf::same( "one visit from each vertex not seen before", from[k], expected[k] );
    vf::holds( "every vertex is visited", t.visited[w] );
}

// what the network reports: the components found by visiting its own rows
void c15_network()
{
    size_t n = vf::size( "n" );
    auto net = any_network<SimpleAgent>();
    // a stand-in for the visits, which depends on every row
    auto visit = []( TarjanConnectivityAlgo & t, size_t v )
    {
        t.visited[v] = true;
        t.scc_list.push_back( t.adjacency_list[v] );
    };
    vf::replace( "Seldon::TarjanConnectivityAlgo::depth_first_search", visit );
    auto components = net.strongly_connected_components();
    vf::same( "the components are those of the network's rows", components.size(), n );
    size_t i = vf::pick( "i", n );
    vf::same( "the components are those of the network's rows", components[i].size(), vf::size( "deg", i ) );
    size_t j = vf::pick( "j", vf::size( "deg", i ) );
    vf::same( "the components are those of the network's rows", components[i][j], vf::index( "nb", n, i, j ) );
    same_network( "the network stays", net );
}

void c15_warning()
{
    auto net = any_network<SimpleAgent>();
    vf::replace( "Seldon::Network::strongly_connected_components", [] { return Components( vf::size( "components" ) ); } );
    Config::DeGrootSettings settings;
    settings.max_iterations  = any_max();
    settings.convergence_tol = vf::real( "tol" );
    vf::clear_printed();
    DeGrootModel model( settings, net );
    vf::holds( "the warning is given unless there is exactly one component", vf::printed().empty() == ( vf::size( "components" ) == 1 ) );
}
} // namespace spec
