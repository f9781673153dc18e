#pragma once
#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "config_parser.hpp"
#include "network.hpp"
#include "vf.hpp"
#include <optional>
#include <span>
#include <vector>

namespace spec
{
using namespace Seldon;

// An arbitrary network: n agents, deg(i) entries per row, nb(i,j) the j-th neighbour of i and w(i,j) its weight.
template<typename AgentT>
Network<AgentT> any_network()
{
    size_t n = vf::size( "n" );
    std::vector<std::vector<size_t>> nb;
    std::vector<std::vector<double>> w;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<size_t> r;
        std::vector<double> q;
        size_t d = vf::size( "deg", i );
        for( size_t j = 0; j < d; j++ )
        {
            r.push_back( vf::index( "nb", n, i, j ) );
            q.push_back( vf::real( "w", i, j ) );
        }
        nb.push_back( r );
        w.push_back( q );
    }
    return Network<AgentT>( std::move( nb ), std::move( w ), Network<AgentT>::EdgeDirection::Incoming );
}

// Arbitrary opinions, named by `name`.
template<typename AgentT>
void any_opinions( Network<AgentT> & net, const char * name )
{
    for( size_t i = 0; i < net.n_agents(); i++ )
    {
        net.agents[i].data.opinion = vf::real( name, i );
    }
}

// The same rows as any_network()
template<typename AgentT>
void same_network( const char * what, Network<AgentT> & net )
{
    size_t i = vf::pick( "i", vf::size( "n" ) );
    vf::same( what, net.n_agents(), vf::size( "n" ) );
    vf::same( what, net.get_neighbours( i ).size(), vf::size( "deg", i ) );
    vf::same( what, net.get_weights( i ).size(), vf::size( "deg", i ) );
    size_t j = vf::pick( "j", vf::size( "deg", i ) );
    vf::same( what, net.get_neighbours( i )[j], vf::index( "nb", vf::size( "n" ), i, j ) );
    vf::same( what, net.get_weights( i )[j], vf::real( "w", i, j ) );
}

// A new contact network: rows named `nb`, `w` with `deg` entries; the agents stay.
template<typename AgentT>
void new_rows( Network<AgentT> & net, const char * deg, const char * nb, const char * w )
{
    size_t n = net.n_agents();
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<size_t> r;
        std::vector<double> q;
        size_t d = vf::size( deg, i );
        for( size_t j = 0; j < d; j++ )
        {
            r.push_back( vf::index( nb, n, i, j ) );
            q.push_back( vf::real( w, i, j ) );
        }
        net.set_neighbours_and_weights( i, r, q );
    }
}

// Arbitrary state of every agent, named by `x` (opinions) and the other names below
template<typename AgentT>
void any_agents( Network<AgentT> & net, const char * x )
{
    for( size_t i = 0; i < net.n_agents(); i++ )
    {
        net.agents[i].data.opinion    = vf::real( x, i );
        net.agents[i].data.activity   = vf::real( "activity", i );
        net.agents[i].data.reluctance = vf::real( "reluctance", i );
        if constexpr( std::is_same_v<AgentT, InertialAgent> )
        {
            net.agents[i].data.velocity = vf::real( "velocity", i );
        }
    }
}

// The model's contact update is taken to give arbitrary rows and to leave the agents alone (shown under C09 and C10).
template<typename AgentT>
void any_contacts( Network<AgentT> & net )
{
    auto f = [&net] { new_rows( net, "deg2", "nb2", "w2" ); };
    vf::replace( "Seldon::ActivityDrivenModelAbstract::update_network", f );
    vf::replace( "Seldon::ActivityDrivenModelAbstract::update_network_probabilistic", f );
    vf::replace( "Seldon::ActivityDrivenModelAbstract::update_network_mean", f );
}

inline std::optional<int> any_max()
{
    if( vf::boolean( "has_max" ) )
    {
        return int( vf::size( "max" ) );
    }
    return std::nullopt;
}

// Arbitrary parameters of an activity-driven model over n agents, n_bots of them bots
template<typename SettingsT>
SettingsT any_activity_settings()
{
    SettingsT s;
    s.max_iterations    = any_max();
    s.dt                = vf::real( "dt" );
    s.m                 = vf::integer( "m" );
    s.eps               = vf::real( "eps" );
    s.gamma             = vf::real( "gamma" );
    s.alpha             = vf::real( "alpha" );
    s.homophily         = vf::real( "homophily" );
    s.reciprocity       = vf::real( "reciprocity" );
    s.K                 = vf::real( "K" );
    s.mean_activities   = vf::boolean( "mean_activities" );
    s.mean_weights      = vf::boolean( "mean_weights" );
    s.use_reluctances   = vf::boolean( "use_reluctances" );
    s.reluctance_mean   = vf::real( "reluctance_mean" );
    s.reluctance_sigma  = vf::real( "reluctance_sigma" );
    s.reluctance_eps    = vf::real( "reluctance_eps" );
    s.covariance_factor = vf::real( "covariance_factor" );
    s.n_bots            = vf::size( "n_bots" );
    vf::assume( vf::size( "n_bots" ) <= vf::size( "n" ) );
    // the lists may hold more entries than there are bots
    for( size_t i = 0; i < vf::size( "n_bots" ) + vf::size( "spare m" ); i++ )
        s.bot_m.push_back( vf::integer( "bot_m", i ) );
    for( size_t i = 0; i < vf::size( "n_bots" ) + vf::size( "spare activities" ); i++ )
        s.bot_activity.push_back( vf::real( "bot_activity", i ) );
    for( size_t i = 0; i < vf::size( "n_bots" ) + vf::size( "spare opinions" ); i++ )
        s.bot_opinion.push_back( vf::real( "bot_opinion", i ) );
    for( size_t i = 0; i < vf::size( "n_bots" ) + vf::size( "spare homophilies" ); i++ )
        s.bot_homophily.push_back( vf::real( "bot_homophily", i ) );
    return s;
}

inline Config::DeffuantSettings any_deffuant_settings()
{
    Config::DeffuantSettings s;
    s.max_iterations      = any_max();
    s.homophily_threshold = vf::real( "threshold" );
    s.mu                  = vf::real( "mu" );
    s.use_network         = vf::boolean( "use_network" );
    s.dim                 = vf::size( "dim" );
    return s;
}
} // namespace spec
