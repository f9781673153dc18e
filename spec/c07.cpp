// C07: one inertial iteration is one velocity-Verlet step with friction.
#include "common.hpp"
#include "models/InertialModel.hpp"

namespace spec
{
inline std::vector<double> drift( const std::vector<double> & y )
{
    std::vector<double> k;
    size_t n = vf::size( "n" );
    for( size_t i = 0; i < n; i++ )
    {
        double sum = 0;
        for( size_t j = 0; j < vf::size( "deg2", i ); j++ )
        {
            sum += vf::real( "w2", i, j ) * std::tanh( vf::real( "alpha" ) * y[vf::index( "nb2", n, i, j )] );
        }
        k.push_back( -y[i] + vf::real( "K" ) / vf::real( "reluctance", i ) * sum );
    }
    return k;
}

void c07()
{
    auto net                      = any_network<InertialAgent>();
    auto gen                      = vf::generator( "g" );
    auto settings                 = any_activity_settings<Config::ActivityDrivenInertialSettings>();
    settings.friction_coefficient = vf::real( "friction" );
    InertialModel model( settings, net, gen );
    any_contacts( net );
    any_agents( net, "x0" );
    model.iteration(); // an earlier iteration: what it leaves behind must not matter
    any_agents( net, "x" );
    model.iteration();

    size_t n = vf::size( "n" );
    double h = vf::real( "dt" );
    double f = vf::real( "friction" );
    std::vector<double> before, after;
    for( size_t i = 0; i < n; i++ )
    {
        before.push_back( vf::real( "x", i ) );
    }
    auto a = drift( before );
    for( size_t i = 0; i < n; i++ )
    {
        double v = vf::real( "velocity", i );
        after.push_back( before[i] + v * h + ( a[i] - f * v ) * h * h / 2 );
    }
    auto b = drift( after );

    size_t i      = vf::pick( "i", n );
    double v      = vf::real( "velocity", i );
    double next_v = ( v + h / 2 * ( a[i] - f * v + b[i] ) ) / ( 1 + f * h / 2 );
    double next_x = after[i];
    if( i < vf::size( "n_bots" ) )
    {
        next_x = vf::real( "bot_opinion", i );
    }
    vf::same( "the opinion after an iteration", net.agents[i].data.opinion, next_x );
    vf::holds(
        "the velocity after an iteration", i < vf::size( "n_bots" ) || net.agents[i].data.velocity == next_v );

    size_t j = vf::pick( "j", vf::size( "deg2", i ) );
    vf::same( "the number of agents stays", net.n_agents(), vf::size( "n" ) );
    vf::same( "activities stay", net.agents[i].data.activity, vf::real( "activity", i ) );
    vf::same( "reluctances stay", net.agents[i].data.reluctance, vf::real( "reluctance", i ) );
    vf::same( "the number of neighbours stays", net.get_neighbours( i ).size(), vf::size( "deg2", i ) );
    vf::same( "the number of weights stays", net.get_weights( i ).size(), vf::size( "deg2", i ) );
    vf::same( "neighbours stay", net.get_neighbours( i )[j], vf::index( "nb2", vf::size( "n" ), i, j ) );
    vf::same( "weights stay", net.get_weights( i )[j], vf::real( "w2", i, j ) );
}
} // namespace spec
