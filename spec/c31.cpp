// C31: the inverse error function.
#include "common.hpp"
#include "util/erfinv.hpp"

namespace spec
{
// the value for an arbitrary argument; its accuracy is judged by the enclosures of vf/accuracy.py
void c31_value()
{
    double x = vf::real( "x" );
    vf::assume( x > -1.0 && x < 1.0 );
    vf::same( "value", Math::erfinv( x ), vf::real( "y" ) );
}

void c31_ends()
{
    double x = vf::real( "x" );
    vf::same( "infinite at one", Math::erfinv( 1.0 ), std::numeric_limits<double>::infinity() );
    vf::same( "minus infinity at minus one", Math::erfinv( -1.0 ), -std::numeric_limits<double>::infinity() );
    vf::assume( x < -1.0 || x > 1.0 );
    vf::same( "no number outside", Math::erfinv( x ), std::numeric_limits<double>::quiet_NaN() );
}
} // namespace spec
