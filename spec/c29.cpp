// C29: distributions implement their documented formulas.
#include "common.hpp"
#include "util/math.hpp"
#include <cmath>

namespace spec
{
void c29_power_law()
{
    double eps = vf::real( "eps" ), gamma = vf::real( "gamma" ), x = vf::real( "u" );
    power_law_distribution<> d( eps, gamma );
    // p(x) = ( 1 - gamma ) / ( 1 - eps^(1-gamma) ) x^-gamma on [eps, 1]
    double low = std::pow( eps, 1.0 - gamma );
    vf::same( "power law: inverse cumulative distribution", d.inverse_cdf( x ), std::pow( ( 1.0 - low ) * x + low, 1.0 / ( 1.0 - gamma ) ) );
    vf::same( "power law: density", d.pdf( x ), ( 1.0 - gamma ) / ( 1.0 - low ) * std::pow( x, -gamma ) );
    double mean = ( 1.0 - gamma ) / ( 2.0 - gamma ) * ( 1.0 - std::pow( eps, 2.0 - gamma ) ) / ( 1.0 - low );
    vf::same( "power law: mean", d.mean(), mean );
    double known = -( 1.0 - gamma ) / ( 2.0 - gamma ) * std::pow( eps, 2.0 - gamma ) / ( 1.0 - low );
    vf::same( "(but for the known finding) power law: mean", d.mean(), known );
    auto gen = vf::generator( "g" );
    vf::mark( "g" );
    double first = d( gen ), second = d( gen );
    double next = gen();
    vf::rewind( "g" );
    std::uniform_real_distribution<double> uniform( 0.0, 1.0 );
    double a = uniform( gen ), b = uniform( gen );
    vf::same( "power law: one uniform draw each", first, std::pow( ( 1.0 - low ) * a + low, 1.0 / ( 1.0 - gamma ) ) );
    vf::same( "power law: one uniform draw each", second, std::pow( ( 1.0 - low ) * b + low, 1.0 / ( 1.0 - gamma ) ) );
    vf::same( "power law: no further draw", next, gen() );
}

double Phi( double x )
{
    return 0.5 * ( 1.0 + std::erf( x / std::sqrt( 2.0 ) ) );
}

void c29_normal()
{
    double mean = vf::real( "mean" ), sigma = vf::real( "sigma" ), eps = vf::real( "eps" ), x = vf::real( "u" );
    truncated_normal_distribution<> d( mean, sigma, eps );
    double below = Phi( ( eps - mean ) / sigma );
    auto inverse = [&]( double u ) { return mean + sigma * std::sqrt( 2.0 ) * Math::erfinv( 2.0 * ( below + u * ( 1.0 - below ) ) - 1.0 ); };
    vf::same( "truncated normal: inverse cumulative distribution", d.inverse_cdf( x ), inverse( x ) );
    double z       = ( x - mean ) / sigma;
    double density = std::exp( -z * z / 2.0 ) / ( sigma * std::sqrt( 2.0 * 3.14159265358979323846 ) ) / ( 1.0 - below );
    vf::same( "truncated normal: density", d.pdf( x ), x < eps ? 0.0 : density );
    auto gen = vf::generator( "g" );
    vf::mark( "g" );
    double first = d( gen ), second = d( gen );
    double next = gen();
    vf::rewind( "g" );
    std::uniform_real_distribution<double> uniform( 0.0, 1.0 );
    double a = uniform( gen ), b = uniform( gen );
    vf::same( "truncated normal: one uniform draw each", first, inverse( a ) );
    vf::same( "truncated normal: one uniform draw each", second, inverse( b ) );
    vf::same( "truncated normal: no further draw", next, gen() );
}

void c29_bivariate()
{
    double cov = vf::real( "cov" );
    bivariate_normal_distribution<> d( cov );
    auto gen = vf::generator( "g" );
    vf::mark( "g" );
    auto first = d( gen );
    auto again = d( gen );
    double next = gen();
    vf::rewind( "g" );
    std::normal_distribution<double> normal{};
    double a = normal( gen ), b = normal( gen ), c = normal( gen ), e = normal( gen );
    vf::same( "bivariate normal: first component", first[0], a );
    vf::same( "bivariate normal: second component", first[1], cov * a + std::sqrt( 1.0 - cov * cov ) * b );
    vf::same( "bivariate normal: first component", again[0], c );
    vf::same( "bivariate normal: second component", again[1], cov * c + std::sqrt( 1.0 - cov * cov ) * e );
    vf::same( "bivariate normal: no further draw", next, gen() );
}

void c29_copula()
{
    double cov = vf::real( "cov" ), eps = vf::real( "eps" ), gamma = vf::real( "gamma" );
    double mean = vf::real( "mean" ), sigma = vf::real( "sigma" ), low = vf::real( "low" );
    bivariate_gaussian_copula d( cov, power_law_distribution<>( eps, gamma ), truncated_normal_distribution<>( mean, sigma, low ) );
    auto gen = vf::generator( "g" );
    vf::mark( "g" );
    auto both   = d( gen );
    double next = gen();
    vf::rewind( "g" );
    bivariate_normal_distribution<> normal( cov );
    auto z = normal( gen );
    power_law_distribution<> one( eps, gamma );
    truncated_normal_distribution<> two( mean, sigma, low );
    vf::same( "copula: first marginal", both[0], one.inverse_cdf( Phi( z[0] ) ) );
    vf::same( "copula: second marginal", both[1], two.inverse_cdf( Phi( z[1] ) ) );
    vf::same( "copula: no further draw", next, gen() );
}
} // namespace spec
