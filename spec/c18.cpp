// C18: k unique numbers from n.
#include "common.hpp"
#include "util/math.hpp"

namespace spec
{
void drawn( const char * what, std::optional<size_t> ignored, size_t k, size_t n, std::vector<size_t> buffer )
{
    auto gen = vf::generator( "gen" );
    draw_unique_k_from_n( ignored, k, n, buffer, gen );
    size_t available = n;
    if( ignored.has_value() && ignored.value() < n )
    {
        available--;
    }
    size_t m = k < available ? k : available;
    vf::same( what, buffer.size(), m );
    size_t j = vf::pick( "j", m );
    size_t l = vf::pick( "l", m );
    vf::holds( what, buffer[j] < n );
    vf::holds( what, !ignored.has_value() || buffer[j] != ignored.value() );
    vf::holds( what, ( buffer[j] == buffer[l] ) == ( j == l ) );
}

std::vector<size_t> before()
{
    std::vector<size_t> v;
    for( size_t i = 0; i < vf::size( "before" ); i++ )
    {
        v.push_back( vf::size( "old", i ) );
    }
    return v;
}

void c18_none()
{
    drawn( "k from n", std::nullopt, vf::size( "k" ), vf::size( "n" ), before() );
}

void c18_one()
{
    drawn( "k from n without one", vf::size( "ignored" ), vf::size( "k" ), vf::size( "n" ), before() );
}
} // namespace spec
