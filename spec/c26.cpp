// C26: settings are rejected exactly when they are outside their range.
#include "config_parser.hpp"
#include "vf.hpp"
#include <algorithm>

namespace spec
{
using namespace Seldon;

inline Config::SimulationOptions any_options( Config::Model model )
{
    Config::SimulationOptions options;
    options.model = model;
    auto & io     = options.output_settings;
    if( vf::boolean( "some agents" ) )
        io.n_output_agents = vf::size( "n_output_agents" );
    else
        io.n_output_agents = std::nullopt;
    if( vf::boolean( "some network" ) )
        io.n_output_network = vf::size( "n_output_network" );
    else
        io.n_output_network = std::nullopt;
    io.print_progress                      = vf::boolean( "print_progress" );
    io.output_initial                      = vf::boolean( "output_initial" );
    io.start_output                        = vf::size( "start_output" );
    io.start_numbering_from                = vf::size( "start_numbering_from" );
    options.network_settings.n_agents      = vf::size( "n_agents" );
    options.network_settings.n_connections = vf::size( "n_connections" );
    return options;
}

inline bool valid_output( const Config::OutputSettings & io )
{
    return io.start_output > 0 && ( !io.n_output_agents.has_value() || io.n_output_agents.value() > 0 )
           && ( !io.n_output_network.has_value() || io.n_output_network.value() > 0 );
}

inline std::optional<int> some_max()
{
    if( vf::boolean( "has_max" ) )
        return vf::integer( "max" );
    return std::nullopt;
}

inline bool valid_max( const std::optional<int> & max )
{
    return !max.has_value() || max.value() >= 0;
}

void c26_degroot()
{
    auto options = any_options( Config::Model::DeGroot );
    Config::DeGrootSettings settings;
    settings.max_iterations  = some_max();
    settings.convergence_tol = vf::real( "tol" );
    options.model_settings   = settings;
    bool thrown              = vf::throws( [&] { Config::validate_settings( options ); } );
    vf::holds( "rejected exactly when out of range", thrown == !( valid_output( options.output_settings ) && valid_max( settings.max_iterations ) && vf::real( "tol" ) >= 0 ) );
}

void c26_deffuant()
{
    auto options = any_options( Config::Model::DeffuantModel );
    Config::DeffuantSettings settings;
    settings.max_iterations      = some_max();
    settings.homophily_threshold = vf::real( "threshold" );
    settings.mu                  = vf::real( "mu" );
    settings.use_network         = vf::boolean( "use_network" );
    settings.use_binary_vector   = vf::boolean( "binary" );
    settings.dim                 = vf::size( "dim" );
    options.model_settings       = settings;
    bool valid                   = valid_output( options.output_settings ) && valid_max( settings.max_iterations ) && vf::real( "threshold" ) > 0 && vf::real( "mu" ) >= 0 && vf::real( "mu" ) <= 1
                 && vf::size( "dim" ) > 0 && ( vf::boolean( "binary" ) || vf::size( "dim" ) == 1 );
    bool thrown = vf::throws( [&] { Config::validate_settings( options ); } );
    vf::holds( "rejected exactly when out of range", thrown == !valid );
}

inline std::vector<int> any_bot_m()
{
    std::vector<int> bot_m;
    for( size_t i = 0; i < vf::size( "n_bot_m" ); i++ )
        bot_m.push_back( vf::integer( "bot_m", i ) );
    return bot_m;
}

inline bool valid_bot_m( const std::vector<int> & bot_m )
{
    return std::all_of( bot_m.begin(), bot_m.end(), []( int m ) { return m >= 0; } );
}

template<typename SettingsT>
SettingsT any_activity()
{
    SettingsT settings;
    settings.max_iterations    = some_max();
    settings.dt                = vf::real( "dt" );
    settings.m                 = vf::integer( "m" );
    settings.eps               = vf::real( "eps" );
    settings.gamma             = vf::real( "gamma" );
    settings.alpha             = vf::real( "alpha" );
    settings.homophily         = vf::real( "homophily" );
    settings.reciprocity       = vf::real( "reciprocity" );
    settings.K                 = vf::real( "K" );
    settings.mean_activities   = vf::boolean( "mean_activities" );
    settings.mean_weights      = vf::boolean( "mean_weights" );
    settings.use_reluctances   = vf::boolean( "use_reluctances" );
    settings.reluctance_mean   = vf::real( "reluctance_mean" );
    settings.reluctance_sigma  = vf::real( "reluctance_sigma" );
    settings.reluctance_eps    = vf::real( "reluctance_eps" );
    settings.covariance_factor = vf::real( "covariance_factor" );
    settings.n_bots            = vf::size( "n_bots" );
    settings.bot_m             = any_bot_m();
    settings.bot_activity      = std::vector<double>( vf::size( "n_bot_activity" ), vf::real( "bot" ) );
    settings.bot_opinion       = std::vector<double>( vf::size( "n_bot_opinion" ), vf::real( "bot" ) );
    settings.bot_homophily     = std::vector<double>( vf::size( "n_bot_homophily" ), vf::real( "bot" ) );
    return settings;
}

template<typename SettingsT>
bool valid_activity( const SettingsT & s )
{
    return valid_max( s.max_iterations ) && valid_bot_m( s.bot_m ) && s.dt > 0 && s.m >= 0 && s.eps > 0 && s.gamma > 2 && s.alpha >= 0 && s.reciprocity >= 0 && s.reluctance_mean > 0 && s.reluctance_sigma > 0
           && s.reluctance_eps > 0 && s.covariance_factor >= -1 && s.covariance_factor <= 1 && s.bot_m.size() >= s.n_bots && s.bot_activity.size() >= s.n_bots
           && s.bot_opinion.size() >= s.n_bots && s.bot_homophily.size() >= s.n_bots;
}

void c26_activity()
{
    auto options           = any_options( Config::Model::ActivityDrivenModel );
    auto settings          = any_activity<Config::ActivityDrivenSettings>();
    options.model_settings = settings;
    bool thrown            = vf::throws( [&] { Config::validate_settings( options ); } );
    vf::holds( "rejected exactly when out of range", thrown == !( valid_output( options.output_settings ) && valid_activity( settings ) ) );
}

void c26_inertial()
{
    auto options                  = any_options( Config::Model::ActivityDrivenInertial );
    auto settings                 = any_activity<Config::ActivityDrivenInertialSettings>();
    settings.friction_coefficient = vf::real( "friction" );
    options.model_settings        = settings;
    bool thrown                   = vf::throws( [&] { Config::validate_settings( options ); } );
    vf::holds(
        "rejected exactly when out of range",
        thrown == !( valid_output( options.output_settings ) && valid_activity( settings ) && vf::real( "friction" ) >= 0 ) );
}
} // namespace spec
