// C10: mean-field weights.
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/InertialModel.hpp"

namespace spec
{
inline double contact_weight( size_t i, size_t j )
{
    if( i == j )
    {
        return 0.0;
    }
    double beta = vf::real( "homophily" );
    if( i < vf::size( "n_bots" ) )
    {
        beta = vf::real( "bot_homophily", i );
    }
    double d = std::abs( vf::real( "x", i ) - vf::real( "x", j ) );
    return std::pow( std::max( d, 1e-10 ), -beta );
}

// The probability that i contacts j in one of its rounds, given that it is active
inline double once_active( size_t i, size_t j )
{
    double norm = 0.0;
    for( size_t k = 0; k < vf::size( "n" ); k++ )
    {
        norm += contact_weight( i, k );
    }
    double w = contact_weight( i, j ) / norm;
    size_t m = i < vf::size( "n_bots" ) ? vf::integer( "bot_m", i ) : vf::integer( "m" );
    double p = 0.0;
    for( size_t k = 1; k <= m; k++ )
    {
        p += ( std::pow( -w, k + 1 ) + w ) / ( w + 1 );
    }
    return p;
}

template<typename ModelT, typename SettingsT>
void mean_field( bool later )
{
    using AgentT  = typename ModelT::AgentT;
    auto net      = any_network<AgentT>();
    auto gen      = vf::generator( "g" );
    auto settings = any_activity_settings<SettingsT>();
    vf::assume( settings.mean_weights );
    ModelT model( settings, net, gen );
    size_t n = vf::size( "n" );
    size_t i = vf::pick( "i", n );
    size_t j = vf::pick( "j", n );
    vf::same( "the model has as many agents", net.n_agents(), n );
    vf::same( "everyone listens to everyone", net.get_neighbours( i ).size(), n );
    vf::same( "each once, in order", net.get_neighbours( i )[j], j );
    vf::holds( "incoming edges", net.direction() == Network<AgentT>::EdgeDirection::Incoming );
    vf::replace( "Seldon::ActivityDrivenModelAbstract::get_euler_slopes", [] {} ); // the opinions afterwards do not matter here
    if( later )
    {
        any_agents( net, "y" );
        model.iteration();
    }
    any_agents( net, "x" );
    model.iteration();
    vf::same( "everyone still listens to everyone", net.get_neighbours( i ).size(), n );
    vf::same( "still each once, in order", net.get_neighbours( i )[j], j );
    vf::same( "with one weight each", net.get_weights( i ).size(), n );
    vf::holds( "still incoming edges", net.direction() == Network<AgentT>::EdgeDirection::Incoming );
    double r = vf::real( "reciprocity" );
    auto min = []( size_t i, size_t j ) { return std::min( 1.0, vf::real( "activity", i ) ) * once_active( i, j ); };
    auto max = []( size_t i, size_t j ) { return std::max( 1.0, vf::real( "activity", i ) ) * once_active( i, j ); };
    vf::same( "the weight by the contact probabilities", net.get_weights( i )[j], min( j, i ) + ( 1.0 - min( j, i ) ) * r * min( i, j ) );
    vf::same( "(the same, but for the known finding)", net.get_weights( i )[j], max( j, i ) + ( 1.0 - max( j, i ) ) * r * max( i, j ) );
}

void c10_activity()
{
    mean_field<ActivityDrivenModel, Config::ActivityDrivenSettings>( false );
}

void c10_later()
{
    mean_field<ActivityDrivenModel, Config::ActivityDrivenSettings>( true );
}

void c10_inertial()
{
    mean_field<InertialModel, Config::ActivityDrivenInertialSettings>( false );
}
} // namespace spec
