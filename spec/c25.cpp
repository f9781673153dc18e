// C25: every configuration key sets its own setting.
#include "config_parser.hpp"
#include "util/tomlplusplus.hpp"
#include "vf.hpp"

namespace spec
{
using namespace Seldon;

template<typename T>
void expect( const char * label, const T & setting, auto node, const T & fallback )
{
    auto given = node.template value<T>();
    vf::exactly( label, setting, given.has_value() ? given.value() : fallback );
}

template<typename T>
void expect( const char * label, const std::optional<T> & setting, auto node )
{
    auto given = node.template value<T>();
    vf::holds( label, setting.has_value() == given.has_value() );
    if( given.has_value() )
        vf::exactly( label, setting.value(), given.value() );
}

template<typename T>
void expect_list( const char * label, const std::vector<T> & setting, auto node, size_t n_bots, T fallback )
{
    std::vector<T> expected;
    if( node.is_array() )
    {
        auto take = [&]( auto && entry )
        {
            if( entry.is_integer() )
                expected.push_back( entry.as_integer()->get() );
            else if( entry.is_floating_point() )
                expected.push_back( entry.as_floating_point()->get() );
        };
        node.as_array()->for_each( take );
    }
    else
    {
        for( size_t i = 0; i < n_bots; i++ )
            expected.push_back( fallback );
    }
    vf::same( label, setting.size(), expected.size() );
    size_t i = vf::pick( label, expected.size() );
    vf::exactly( label, setting[i], expected[i] );
}

inline toml::table given( const char * model )
{
    auto tbl  = toml::parse_file( "config" );
    auto name = tbl["simulation"]["model"].value<std::string>();
    vf::assume( name.has_value() );
    vf::assume( name.value() == model );
    return tbl;
}

void c25_common()
{
    auto tbl  = toml::parse_file( "config" );
    auto name = tbl["simulation"]["model"].value<std::string>();
    Config::SimulationOptions options;
    bool thrown = vf::throws( [&] { options = Config::parse_config_file( "config" ); } );
    vf::holds(
        "rejected exactly without the name of a model",
        thrown == !( name.has_value() && ( name.value() == "DeGroot" || name.value() == "ActivityDriven" || name.value() == "ActivityDrivenInertial" || name.value() == "Deffuant" ) ) );
    vf::assume( !thrown );
    auto seed = tbl["simulation"]["rng_seed"].value<int>();
    if( seed.has_value() )
        vf::same( "simulation.rng_seed", options.rng_seed, seed.value() );
    vf::same( "simulation.model", options.model_string, name.value() );
    vf::holds( "DeGroot", ( options.model == Config::Model::DeGroot ) == ( name.value() == "DeGroot" ) );
    vf::holds( "ActivityDriven", ( options.model == Config::Model::ActivityDrivenModel ) == ( name.value() == "ActivityDriven" ) );
    vf::holds( "ActivityDrivenInertial", ( options.model == Config::Model::ActivityDrivenInertial ) == ( name.value() == "ActivityDrivenInertial" ) );
    vf::holds( "Deffuant", ( options.model == Config::Model::DeffuantModel ) == ( name.value() == "Deffuant" ) );
    auto & io = options.output_settings;
    expect<size_t>( "io.n_output_network", io.n_output_network, tbl["io"]["n_output_network"] );
    expect<size_t>( "io.n_output_agents", io.n_output_agents, tbl["io"]["n_output_agents"] );
    expect<bool>( "io.print_progress", io.print_progress, tbl["io"]["print_progress"], false );
    expect<bool>( "io.output_initial", io.output_initial, tbl["io"]["output_initial"], true );
    expect<size_t>( "io.start_output", io.start_output, tbl["io"]["start_output"], 1 );
    expect<size_t>( "io.start_numbering_from", io.start_numbering_from, tbl["io"]["start_numbering_from"], 0 );
    auto & network = options.network_settings;
    expect<size_t>( "network.number_of_agents", network.n_agents, tbl["network"]["number_of_agents"], 200 );
    expect<size_t>( "network.connections_per_agent", network.n_connections, tbl["network"]["connections_per_agent"], 10 );
    vf::holds( "no network file", !network.file.has_value() );
}

void c25_degroot()
{
    auto tbl      = given( "DeGroot" );
    auto options  = Config::parse_config_file( "config" );
    auto settings = std::get<Config::DeGrootSettings>( options.model_settings );
    expect<int>( "model.max_iterations", settings.max_iterations, tbl["model"]["max_iterations"] );
    expect<double>( "DeGroot.convergence", settings.convergence_tol, tbl["DeGroot"]["convergence"], 1e-6 );
}

void c25_deffuant()
{
    auto tbl      = given( "Deffuant" );
    auto options  = Config::parse_config_file( "config" );
    auto settings = std::get<Config::DeffuantSettings>( options.model_settings );
    auto table    = tbl["Deffuant"];
    expect<int>( "model.max_iterations", settings.max_iterations, tbl["model"]["max_iterations"] );
    expect<double>( "Deffuant.homophily_threshold", settings.homophily_threshold, table["homophily_threshold"], 0.2 );
    expect<double>( "Deffuant.mu", settings.mu, table["mu"], 0.5 );
    expect<bool>( "Deffuant.use_network", settings.use_network, table["use_network"], false );
    expect<bool>( "Deffuant.binary_vector", settings.use_binary_vector, table["binary_vector"], false );
    expect<size_t>( "Deffuant.dim", settings.dim, table["dim"], 1 );
}

template<typename SettingsT>
void activity( const SettingsT & settings, auto table, toml::table & tbl )
{
    expect<int>( "model.max_iterations", settings.max_iterations, tbl["model"]["max_iterations"] );
    expect<double>( "dt", settings.dt, table["dt"], 0.01 );
    expect<int>( "m", settings.m, table["m"], 10 );
    expect<double>( "eps", settings.eps, table["eps"], 0.01 );
    expect<double>( "gamma", settings.gamma, table["gamma"], 2.1 );
    expect<double>( "alpha", settings.alpha, table["alpha"], 3.0 );
    expect<double>( "homophily", settings.homophily, table["homophily"], 0.5 );
    expect<double>( "reciprocity", settings.reciprocity, table["reciprocity"], 0.5 );
    expect<double>( "K", settings.K, table["K"], 3.0 );
    expect<bool>( "mean_activities", settings.mean_activities, table["mean_activities"], false );
    expect<bool>( "mean_weights", settings.mean_weights, table["mean_weights"], false );
    expect<bool>( "reluctances", settings.use_reluctances, table["reluctances"], false );
    expect<double>( "reluctance_mean", settings.reluctance_mean, table["reluctance_mean"], 1.0 );
    expect<double>( "reluctance_sigma", settings.reluctance_sigma, table["reluctance_sigma"], 0.25 );
    expect<double>( "reluctance_eps", settings.reluctance_eps, table["reluctance_eps"], 0.01 );
    expect<double>( "covariance_factor", settings.covariance_factor, table["covariance_factor"], 0.0 );
    expect<size_t>( "n_bots", settings.n_bots, table["n_bots"], 0 );
    auto n_bots    = table["n_bots"].template value<size_t>().value_or( 0 );
    auto m         = table["m"].template value<int>().value_or( 10 );
    auto homophily = table["homophily"].template value<double>().value_or( 0.5 );
    expect_list<int>( "bot_m", settings.bot_m, table["bot_m"], n_bots, m );
    expect_list<double>( "bot_opinion", settings.bot_opinion, table["bot_opinion"], n_bots, 0.0 );
    expect_list<double>( "bot_activity", settings.bot_activity, table["bot_activity"], n_bots, 1.0 );
    expect_list<double>( "bot_homophily", settings.bot_homophily, table["bot_homophily"], n_bots, homophily );
}

void c25_activity()
{
    auto tbl     = given( "ActivityDriven" );
    auto options = Config::parse_config_file( "config" );
    activity( std::get<Config::ActivityDrivenSettings>( options.model_settings ), tbl["ActivityDriven"], tbl );
}

void c25_inertial()
{
    auto tbl      = given( "ActivityDrivenInertial" );
    auto options  = Config::parse_config_file( "config" );
    auto settings = std::get<Config::ActivityDrivenInertialSettings>( options.model_settings );
    activity( settings, tbl["ActivityDrivenInertial"], tbl );
    expect<double>( "friction_coefficient", settings.friction_coefficient, tbl["ActivityDrivenInertial"]["friction_coefficient"], 1.0 );
}
} // namespace spec
