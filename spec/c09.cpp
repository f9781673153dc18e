// C09: the contact network of an iteration.
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/InertialModel.hpp"
#include "util/math.hpp"

namespace spec
{
inline double contact_weight( size_t i, size_t j )
{
    if( i == j )
    {
        return 0.0;
    }
    double beta = vf::real( "homophily" );
    if( i < vf::size( "n_bots" ) )
    {
        beta = vf::real( "bot_homophily", i );
    }
    double d = std::abs( vf::real( "x", i ) - vf::real( "x", j ) );
    return std::pow( std::max( d, 1e-10 ), -beta );
}

// What one iteration does to arbitrary contacts; later: an iteration that follows another one
template<typename ModelT, typename SettingsT>
void contacts( bool later )
{
    using AgentT = typename ModelT::AgentT;
    auto net     = any_network<AgentT>();
    auto gen     = vf::generator( "g" );
    auto settings = any_activity_settings<SettingsT>();
    vf::assume( !settings.mean_weights );
    ModelT model( settings, net, gen );
    any_agents( net, "x" );
    vf::replace( "Seldon::ActivityDrivenModelAbstract::get_euler_slopes", [] {} ); // the opinions afterwards do not matter here
    // The outgoing edges as they are before the final change to incoming ones, which C13 decides
    vf::replace( "Seldon::Network::toggle_incoming_outgoing", [] {} );
    if( later )
    {
        model.iteration();
        net = any_network<AgentT>();
        any_agents( net, "x" );
        gen = vf::generator( "later" );
    }
    vf::mark( later ? "later" : "g" );
    model.iteration();

    vf::rewind( later ? "later" : "g" );
    size_t n = vf::size( "n" );
    std::uniform_real_distribution<double> u( 0.0, 1.0 );
    std::vector<std::vector<size_t>> out;
    std::vector<std::vector<double>> ones;
    std::set<std::pair<size_t, size_t>> made;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<size_t> row;
        if( u( gen ) < vf::real( "activity", i ) )
        {
            int m = i < vf::size( "n_bots" ) ? vf::integer( "bot_m", i ) : vf::integer( "m" );
            reservoir_sampling_A_ExpJ( m, n, [&]( size_t j ) { return contact_weight( i, j ); }, row, gen );
            for( size_t j : row )
            {
                made.insert( { i, j } );
            }
        }
        out.push_back( row );
        ones.push_back( std::vector<double>( row.size(), 1.0 ) );
    }
    for( size_t i = 0; i < n; i++ )
    {
        size_t d = out[i].size();
        for( size_t k = 0; k < d; k++ )
        {
            size_t j = out[i][k];
            if( !made.contains( { j, i } ) )
            {
                if( u( gen ) < vf::real( "reciprocity" ) )
                {
                    out[j].push_back( i );
                    ones[j].push_back( 1.0 );
                }
            }
        }
    }
    size_t i     = vf::pick( "i", n );
    vf::same( "the number of agents stays", net.n_agents(), n );
    vf::same( "i contacts or answers so many", net.get_neighbours( i ).size(), out[i].size() );
    vf::same( "one weight per edge", net.get_weights( i ).size(), ones[i].size() );
    size_t k = vf::pick( "k", out[i].size() );
    vf::same( "i contacts or answers these agents", net.get_neighbours( i )[k], out[i][k] );
    vf::same( "with weight one", net.get_weights( i )[k], ones[i][k] );
    vf::holds( "as outgoing edges, so incoming ones once changed", net.direction() == Network<AgentT>::EdgeDirection::Outgoing );
}

void c09_activity()
{
    contacts<ActivityDrivenModel, Config::ActivityDrivenSettings>( false );
}

void c09_later()
{
    contacts<ActivityDrivenModel, Config::ActivityDrivenSettings>( true );
}

void c09_inertial()
{
    contacts<InertialModel, Config::ActivityDrivenInertialSettings>( false );
}
} // namespace spec
