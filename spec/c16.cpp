// C16: randomly weighted networks have normalised rows.
#include "common.hpp"
#include "network_generation.hpp"

namespace spec
{
// the positions are reported by draw_unique_k_from_n (C18)
void c16_connections()
{
    size_t n    = vf::size( "n" );
    size_t k    = vf::size( "k" );
    bool self   = vf::boolean( "self" );
    auto gen    = vf::generator( "g" );
    vf::mark( "g" );
    auto net = NetworkGeneration::generate_n_connections<SimpleAgent>( n, k, self, gen );
    vf::rewind( "g" );
    std::uniform_real_distribution<double> weight( 0.0, 1.0 );
    std::vector<std::vector<size_t>> nb;
    std::vector<std::vector<double>> w;
    std::vector<double> total;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<size_t> row;
        std::vector<double> draws;
        double sum = 0;
        draw_unique_k_from_n( i, k, n, row, gen );
        for( size_t j = 0; j < row.size(); j++ )
        {
            double d = weight( gen );
            sum += d;
            draws.push_back( d );
        }
        if( self )
        {
            double d = weight( gen );
            sum += d;
            draws.push_back( d );
            row.push_back( i );
        }
        nb.push_back( row );
        w.push_back( draws );
        total.push_back( sum );
    }
    size_t i = vf::pick( "i", n );
    vf::same( "one row per agent", net.n_agents(), n );
    vf::holds( "incoming edges", net.direction() == Network<SimpleAgent>::EdgeDirection::Incoming );
    vf::same( "the requested number of neighbours", net.get_neighbours( i ).size(), nb[i].size() );
    vf::same( "one weight per neighbour", net.get_weights( i ).size(), nb[i].size() );
    size_t j = vf::pick( "j", nb[i].size() );
    vf::same( "the neighbours drawn, then the agent itself if requested", net.get_neighbours( i )[j], nb[i][j] );
    vf::same( "each weight a fresh draw over the sum of the row's draws", net.get_weights( i )[j], w[i][j] / total[i] );
}

void c16_fully()
{
    size_t n = vf::size( "n" );
    auto gen = vf::generator( "g" );
    vf::mark( "g" );
    auto net = NetworkGeneration::generate_fully_connected<SimpleAgent>( n, gen );
    vf::rewind( "g" );
    std::uniform_real_distribution<double> weight( 0.0, 1.0 );
    std::vector<std::vector<double>> w;
    std::vector<double> total;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<double> draws;
        double sum = 0;
        for( size_t j = 0; j < n; j++ )
        {
            double d = weight( gen );
            sum += d;
            draws.push_back( d );
        }
        w.push_back( draws );
        total.push_back( sum );
    }
    size_t i = vf::pick( "i", n );
    size_t j = vf::pick( "j", n );
    vf::same( "one row per agent", net.n_agents(), n );
    vf::holds( "incoming edges", net.direction() == Network<SimpleAgent>::EdgeDirection::Incoming );
    vf::same( "every agent a neighbour", net.get_neighbours( i ).size(), n );
    vf::same( "one weight per neighbour", net.get_weights( i ).size(), n );
    vf::same( "every agent a neighbour", net.get_neighbours( i )[j], j );
    vf::same( "each weight a fresh draw over the sum of the row's draws", net.get_weights( i )[j], w[i][j] / total[i] );
}
} // namespace spec
