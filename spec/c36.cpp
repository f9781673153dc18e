// C36: the settings that are printed are the ones in effect, and what a run reports of itself.
#include "common.hpp"
#include "simulation.hpp"
#include <fmt/format.h>
#include <fmt/ranges.h>

namespace spec
{
inline std::optional<size_t> some( const char * has, const char * name )
{
    if( vf::boolean( has ) )
        return vf::size( name );
    return std::nullopt;
}

template<typename SettingsT>
Config::SimulationOptions any_options( Config::Model model, const SettingsT & settings )
{
    Config::SimulationOptions options;
    options.model_string                  = vf::text( "model" );
    options.model                         = model;
    options.model_settings                = settings;
    options.rng_seed                      = vf::integer( "seed" );
    options.network_settings.n_agents     = vf::size( "agents" );
    options.network_settings.n_connections = vf::size( "connections" );
    auto & output                         = options.output_settings;
    output.n_output_agents                = some( "some agents", "n_output_agents" );
    output.n_output_network               = some( "some network", "n_output_network" );
    output.print_progress                 = vf::boolean( "print_progress" );
    output.output_initial                 = vf::boolean( "output_initial" );
    output.start_output                   = vf::size( "start_output" );
    output.start_numbering_from           = vf::size( "start_numbering_from" );
    return options;
}

// every line with the setting in effect
inline void printed_with( const char * label, const Config::SimulationOptions & options, const std::string & of_the_model )
{
    vf::clear_printed();
    Config::print_settings( options );
    auto & output    = options.output_settings;
    std::string text = fmt::format( "Random seed: {}\n", vf::integer( "seed" ) );
    text += fmt::format( "[Model]\n    type {}\n", vf::text( "model" ) );
    text += of_the_model;
    text += fmt::format( "[Network]\n    n_agents {}\n    n_connections {}\n", vf::size( "agents" ), vf::size( "connections" ) );
    text += fmt::format( "[Output]\n    n_output_agents  {}\n", some( "some agents", "n_output_agents" ) );
    text += fmt::format( "    n_output_network {}\n", some( "some network", "n_output_network" ) );
    text += fmt::format( "    print_progress {}\n", vf::boolean( "print_progress" ) );
    text += fmt::format( "    output_initial {}\n", vf::boolean( "output_initial" ) );
    text += fmt::format( "    start_output {}\n", vf::size( "start_output" ) );
    text += fmt::format( "    start_numbering_from {}\n", vf::size( "start_numbering_from" ) );
    vf::same( label, vf::printed(), text );
}

void c36_degroot()
{
    Config::DeGrootSettings s;
    s.max_iterations  = any_max();
    s.convergence_tol = vf::real( "tol" );
    printed_with( "DeGroot", any_options( Config::Model::DeGroot, s ), fmt::format( "    max_iterations {}\n    convergence_tol {}\n", any_max(), s.convergence_tol ) );
}

void c36_deffuant()
{
    auto s             = any_deffuant_settings();
    s.use_binary_vector = vf::boolean( "binary" );
    std::string text   = fmt::format( "    max_iterations {}\n    homophily_threshold {}\n    mu {}\n", any_max(), vf::real( "threshold" ), vf::real( "mu" ) );
    text += fmt::format( "    use_network {}\n    use_binary_vector {}\n    dim {}\n", vf::boolean( "use_network" ), vf::boolean( "binary" ), vf::size( "dim" ) );
    printed_with( "Deffuant", any_options( Config::Model::DeffuantModel, s ), text );
}

template<typename SettingsT>
std::string activity( const SettingsT & s )
{
    std::string text = fmt::format( "    max_iterations {}\n", s.max_iterations );
    text += fmt::format( "    dt {} \n    m {} \n    eps {} \n    gamma {} \n", s.dt, s.m, s.eps, s.gamma );
    text += fmt::format( "    alpha {} \n    homophily {} \n    reciprocity {} \n    K {} \n", s.alpha, s.homophily, s.reciprocity, s.K );
    text += fmt::format( "    mean_activities {} \n    mean_weights {} \n    n_bots           {}\n", s.mean_activities, s.mean_weights, s.n_bots );
    if( s.n_bots > 0 )
    {
        text += fmt::format( "    Bot opinions     {}\n    Bot m            {}\n", s.bot_opinion, s.bot_m );
        text += fmt::format( "    Bot activity(s)  {}\n    Bot homophily(s) {}\n", s.bot_activity, s.bot_homophily );
    }
    text += fmt::format( "    use_reluctances {}\n", s.use_reluctances );
    if( s.use_reluctances )
    {
        text += fmt::format( "    reluctance_mean {}\n    reluctance_sigma {}\n", s.reluctance_mean, s.reluctance_sigma );
        text += fmt::format( "    reluctance_eps {}\n    covariance_factor {}\n", s.reluctance_eps, s.covariance_factor );
    }
    return text;
}

void c36_activity()
{
    auto s = any_activity_settings<Config::ActivityDrivenSettings>();
    printed_with( "ActivityDriven", any_options( Config::Model::ActivityDrivenModel, s ), activity( s ) );
}

void c36_inertial()
{
    auto s                 = any_activity_settings<Config::ActivityDrivenInertialSettings>();
    s.friction_coefficient = vf::real( "friction" );
    printed_with( "ActivityDrivenInertial", any_options( Config::Model::ActivityDrivenInertial, s ), activity( s ) + fmt::format( "    friction_coefficient {}\n", s.friction_coefficient ) );
}

// A run tells of each iteration when asked to, and in the end how many there were.
void c36_run()
{
    vf::replace( "Seldon::Simulation::create_network", [] {} );
    vf::replace( "Seldon::Simulation::create_model", [] {} );
    Config::SimulationOptions options;
    options.output_settings.print_progress = vf::boolean( "print_progress" );
    options.output_settings.output_initial = false;
    options.output_settings.start_numbering_from = vf::size( "start_numbering_from" );
    Simulation<SimpleAgent> simulation( options, std::nullopt, std::nullopt );
    simulation.network = Network<SimpleAgent>( 2 );
    simulation.model   = std::make_unique<Model<SimpleAgent>>( vf::size( "iterations" ) );
    vf::clear_printed();
    simulation.run( fs::path( "out" ) );
    size_t k   = vf::boolean( "print_progress" ) ? vf::size( "iterations" ) : 0;
    auto lines = vf::lines( vf::printed() );
    vf::same( "as many lines as iterations", lines.size(), k + 6 );
    size_t i = vf::pick( "i", k );
    vf::holds( "a line for the iteration", lines[3 + i].starts_with( fmt::format( "Iteration {} ", i + 1 ) ) );
    vf::holds( "how many there were", lines[k + 4].starts_with( fmt::format( "Finished after {} iterations", vf::size( "iterations" ) ) ) );
}

// The program names the files and the settings it uses.
void c36_main()
{
    Config::SimulationOptions options;
    options.model          = Config::Model::DeGroot;
    options.model_settings = Config::DeGrootSettings();
    vf::replace( "Seldon::Config::parse_config_file", [&]( std::string_view ) { return options; } );
    vf::replace( "Seldon::Config::validate_settings", [] {} );
    vf::replace( "Seldon::Simulation::create_network", [] {} );
    vf::replace( "Seldon::Simulation::create_model", [] {} );
    vf::replace( "Seldon::Simulation::run", [] {} );
    vf::clear_printed();
    Config::print_settings( options );
    std::string settings = vf::printed();
    vf::clear_printed();
    vf::assume( !vf::throws( [&] { vf::run_program(); } ) );
    auto network = vf::argument( "--network" ), agents = vf::argument( "--agents" ), output = vf::argument( "--output" );
    std::string text = "=================================================================\n";
    text += fmt::format( "Using input file: {}\n", vf::argument( "config_file" ).value() );
    text += fmt::format( "Output directory path set to: {}\n", output.has_value() ? output.value() : std::string( "./output" ) );
    text += settings;
    if( network.has_value() )
        text += fmt::format( "Reading network from file {}\n", network.value() );
    if( agents.has_value() )
        text += fmt::format( "Reading agents from file {}\n", agents.value() );
    vf::same( "the files in use", vf::printed(), text );
}
} // namespace spec
