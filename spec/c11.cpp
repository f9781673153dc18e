// C11: the agents a model starts from.
#include "common.hpp"
#include "model_factory.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/DeGroot.hpp"
#include "models/DeffuantModel.hpp"
#include "models/InertialModel.hpp"
#include "util/math.hpp"

namespace spec
{
template<typename ModelT, typename SettingsT>
void activity_agents()
{
    using AgentT  = typename ModelT::AgentT;
    auto net      = any_network<AgentT>();
    auto gen      = vf::generator( "g" );
    auto settings = any_activity_settings<SettingsT>();
    size_t i      = vf::pick( "i", vf::size( "n" ) );
    auto before   = net.agents[i];
    vf::mark( "g" );
    ModelT model( settings, net, gen );
    auto agent = net.agents[i];
    vf::rewind( "g" );

    std::uniform_real_distribution<> opinion( -1.0, 1.0 );
    power_law_distribution<> activity( vf::real( "eps" ), vf::real( "gamma" ) );
    truncated_normal_distribution<> reluctance(
        vf::real( "reluctance_mean" ), vf::real( "reluctance_sigma" ), vf::real( "reluctance_eps" ) );
    bivariate_gaussian_copula joint( vf::real( "covariance_factor" ), activity, reluctance );
    std::vector<double> x, a, r;
    for( size_t k = 0; k < vf::size( "n" ); k++ )
    {
        x.push_back( opinion( gen ) );
        auto both = joint( gen );
        a.push_back( both[0] );
        r.push_back( both[1] );
    }
    if( vf::boolean( "mean_activities" ) )
    {
        a[i] = activity.mean();
    }
    if( i < vf::size( "n_bots" ) )
    {
        x[i] = vf::real( "bot_opinion", i );
        a[i] = vf::real( "bot_activity", i );
    }
    if( !vf::boolean( "use_reluctances" ) )
    {
        r[i] = before.data.reluctance;
    }
    vf::same( "the number of agents stays", net.agents.size(), vf::size( "n" ) );
    vf::same( "the initial opinion", agent.data.opinion, x[i] );
    vf::same( "the initial activity", agent.data.activity, a[i] );
    vf::same( "the initial reluctance", agent.data.reluctance, r[i] );
    vf::same( "which is one unless enabled", before.data.reluctance, 1.0 );
    if constexpr( std::is_same_v<AgentT, InertialAgent> )
    {
        vf::same( "the initial velocity", agent.data.velocity, 0.0 );
    }
}

void c11_activity()
{
    activity_agents<ActivityDrivenModel, Config::ActivityDrivenSettings>();
}

void c11_inertial()
{
    activity_agents<InertialModel, Config::ActivityDrivenInertialSettings>();
}

void c11_degroot()
{
    auto net = any_network<SimpleAgent>();
    any_opinions( net, "x" );
    Config::DeGrootSettings settings;
    settings.max_iterations  = any_max();
    settings.convergence_tol = vf::real( "tol" );
    DeGrootModel model( settings, net );
    size_t i = vf::pick( "i", vf::size( "n" ) );
    vf::same( "DeGroot agents start evenly spaced", net.agents[i].data.opinion, double( i ) / double( vf::size( "n" ) ) );
}

void c11_deffuant()
{
    auto net = any_network<SimpleAgent>();
    auto gen = vf::generator( "g" );
    any_opinions( net, "x" );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    auto model           = ModelFactory::create_model_deffuant( net, Config::SimulationOptions::ModelVariantT( settings ), gen );
    size_t i             = vf::pick( "i", vf::size( "n" ) );
    vf::same( "Deffuant agents start evenly spaced", net.agents[i].data.opinion, double( i ) / double( vf::size( "n" ) ) );
}

void c11_vector()
{
    auto net             = any_network<DiscreteVectorAgent>();
    auto gen             = vf::generator( "g" );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    vf::mark( "g" );
    auto model = ModelFactory::create_model_deffuant_vector( net, Config::SimulationOptions::ModelVariantT( settings ), gen );
    vf::rewind( "g" );
    std::uniform_int_distribution<int> coin( 0, 1 );
    std::vector<std::vector<int>> x;
    for( size_t k = 0; k < vf::size( "n" ); k++ )
    {
        std::vector<int> row;
        for( size_t c = 0; c < vf::size( "dim" ); c++ )
        {
            row.push_back( coin( gen ) );
        }
        x.push_back( row );
    }
    size_t i = vf::pick( "i", vf::size( "n" ) );
    size_t c = vf::pick( "c", vf::size( "dim" ) );
    vf::same( "vector agents have the configured number of components", net.agents[i].data.opinion.size(), vf::size( "dim" ) );
    vf::same( "each a fair coin", net.agents[i].data.opinion[c], x[i][c] );
}

// a bot beyond the last agent is rejected
void c11_bots()
{
    auto net        = any_network<ActivityAgent>();
    auto gen        = vf::generator( "g" );
    size_t more     = vf::size( "more" );
    auto settings   = any_activity_settings<Config::ActivityDrivenSettings>();
    settings.n_bots = vf::size( "n" ) + 1 + more;
    vf::holds( "more bots than agents are rejected", vf::throws( [&] { ActivityDrivenModel model( settings, net, gen ); } ) );
}
} // namespace spec
