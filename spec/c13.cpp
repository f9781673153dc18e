// C13: changing the network representation preserves the edges.
#include "common.hpp"

namespace spec
{
using Net = Network<SimpleAgent>;

void edges( const char * what, Net & net, bool turned )
{
    size_t n = vf::size( "n" );
    size_t r = vf::pick( "r", n );
    std::vector<size_t> nb;
    std::vector<double> w;
    if( turned )
    {
        for( size_t i = 0; i < n; i++ )
        {
            for( size_t j = 0; j < vf::size( "deg", i ); j++ )
            {
                if( vf::index( "nb", n, i, j ) == r )
                {
                    nb.push_back( i );
                    w.push_back( vf::real( "w", i, j ) );
                }
            }
        }
    }
    else
    {
        for( size_t j = 0; j < vf::size( "deg", r ); j++ )
        {
            nb.push_back( vf::index( "nb", n, r, j ) );
            w.push_back( vf::real( "w", r, j ) );
        }
    }
    vf::same( what, net.n_agents(), n );
    vf::same( what, net.agents.size(), n );
    size_t i = vf::pick( "i", n );
    vf::same( what, net.agents[i].data.opinion, vf::real( "x", i ) );
    vf::same( what, net.get_neighbours( r ).size(), nb.size() );
    vf::same( what, net.get_weights( r ).size(), nb.size() );
    size_t j = vf::pick( "j", nb.size() );
    vf::same( what, net.get_neighbours( r )[j], nb[j] );
    vf::same( what, net.get_weights( r )[j], w[j] );
}

Net start()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    return net;
}

void c13_toggle()
{
    auto net = start();
    net.toggle_incoming_outgoing();
    edges( "toggling stores every edge at its other end", net, true );
    vf::holds( "toggling flips the flag", net.direction() == Net::EdgeDirection::Outgoing );
}

void c13_transpose()
{
    auto net = start();
    net.transpose();
    edges( "transposing reverses every edge", net, true );
    vf::holds( "transposing keeps the flag", net.direction() == Net::EdgeDirection::Incoming );
    auto other = start();
    other.switch_direction_flag();
    other.transpose();
    edges( "transposing reverses every edge", other, true );
    vf::holds( "transposing keeps the flag", other.direction() == Net::EdgeDirection::Outgoing );
}

void c13_switch()
{
    auto net = start();
    net.switch_direction_flag();
    edges( "switching keeps every row", net, false );
    vf::holds( "switching flips the flag", net.direction() == Net::EdgeDirection::Outgoing );
    net.switch_direction_flag();
    edges( "switching keeps every row", net, false );
    vf::holds( "switching flips the flag", net.direction() == Net::EdgeDirection::Incoming );
    net.switch_direction_flag();
    net.toggle_incoming_outgoing();
    edges( "toggling stores every edge at its other end", net, true );
    vf::holds( "toggling flips the flag", net.direction() == Net::EdgeDirection::Incoming );
}
} // namespace spec
