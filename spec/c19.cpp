// C19: weighted sampling with exponential jumps.
#include "common.hpp"
#include "util/math.hpp"

namespace spec
{
// The algorithm of Efraimidis and Spirakis
template<typename Weight>
std::vector<size_t> exponential_jumps( size_t k, size_t n, Weight weight, std::mt19937 & gen )
{
    std::uniform_real_distribution<double> u( 0.0, 1.0 );
    using Item  = std::pair<size_t, double>;
    auto larger = []( const Item & a, const Item & b ) { return a.second > b.second; };
    std::priority_queue<Item, std::vector<Item>, decltype( larger )> smallest;
    size_t fill = std::min( k, n );
    for( size_t i = 0; i < fill; i++ )
    {
        smallest.push( { i, std::pow( u( gen ), 1.0 / weight( i ) ) } );
    }
    double jump = std::log( u( gen ) ) / std::log( smallest.top().second );
    for( size_t i = fill; i < n; i++ )
    {
        double w = weight( i );
        jump     = jump - w;
        if( jump <= 0 )
        {
            double low = std::pow( smallest.top().second, w );
            double key = std::pow( low + ( 1.0 - low ) * u( gen ), 1.0 / w );
            smallest.pop();
            smallest.push( { i, key } );
            jump = std::log( u( gen ) ) / std::log( smallest.top().second );
        }
    }
    std::vector<size_t> res( fill );
    for( size_t i = 0; i < fill; i++ )
    {
        res[i] = smallest.top().first;
        smallest.pop();
    }
    return res;
}

void c19()
{
    size_t n  = vf::size( "n" );
    size_t k  = vf::size( "k" );
    auto gen  = vf::generator( "g" );
    std::vector<size_t> buffer;
    size_t before = vf::size( "before" );
    for( size_t i = 0; i < before; i++ )
    {
        buffer.push_back( vf::size( "old", i ) );
    }
    auto weight = []( size_t i ) { return std::exp( vf::real( "w", i ) ); }; // any positive number
    vf::mark( "g" );
    reservoir_sampling_A_ExpJ( k, n, weight, buffer, gen );
    vf::same( "as many as there are, at most k", buffer.size(), std::min( k, n ) );
    double next = std::uniform_real_distribution<double>( 0.0, 1.0 )( gen );
    vf::assume( k > 0 && n > 0 );
    vf::rewind( "g" );
    auto expected = exponential_jumps( k, n, weight, gen );
    size_t i      = vf::pick( "i", std::min( k, n ) );
    vf::same( "the items the algorithm keeps, by increasing key", buffer[i], expected[i] );
    vf::same( "as many draws", next, std::uniform_real_distribution<double>( 0.0, 1.0 )( gen ) );
}

// Nothing to draw from, or nothing to draw
void c19_nothing()
{
    auto gen = vf::generator( "g" );
    std::vector<size_t> buffer;
    size_t before = vf::size( "before" );
    for( size_t i = 0; i < before; i++ )
    {
        buffer.push_back( vf::size( "old", i ) );
    }
    vf::mark( "g" );
    auto weight = []( size_t i ) { return std::exp( vf::real( "w", i ) ); };
    size_t k    = vf::size( "k" );
    size_t n    = vf::size( "n" );
    vf::assume( k == 0 || n == 0 );
    reservoir_sampling_A_ExpJ( k, n, weight, buffer, gen );
    vf::same( "an empty buffer", buffer.size(), size_t( 0 ) );
}

// The size does not depend on the weights
void c19_any_weights()
{
    auto gen = vf::generator( "g" );
    std::vector<size_t> buffer;
    auto weight = []( size_t i ) { return std::floor( std::abs( vf::real( "w", i ) ) ); }; // many of them zero
    size_t k    = vf::size( "k" );
    size_t n    = vf::size( "n" );
    reservoir_sampling_A_ExpJ( k, n, weight, buffer, gen );
    vf::same( "as many as there are, at most k, whatever the weights", buffer.size(), std::min( k, n ) );
}
} // namespace spec
