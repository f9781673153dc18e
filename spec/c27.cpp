// C27: the selected model and the given input files are the ones that run.
#include "common.hpp"
#include "simulation.hpp"

namespace spec
{
template<typename AgentT>
Simulation<AgentT> empty_simulation( const Config::SimulationOptions & options )
{
    auto nothing = [] {};
    vf::replace( "Seldon::Simulation::create_network", nothing );
    vf::replace( "Seldon::Simulation::create_model", nothing );
    Simulation<AgentT> simulation( options, std::nullopt, std::nullopt );
    vf::restore( "Seldon::Simulation::create_network" );
    vf::restore( "Seldon::Simulation::create_model" );
    return simulation;
}

// A simulation with agents of one type is asked for a model of a type
template<typename AgentT, typename ModelT>
void selects( Config::Model which, auto settings )
{
    Config::SimulationOptions options;
    options.model          = which;
    options.model_settings = settings;
    auto simulation        = empty_simulation<AgentT>( options );
    simulation.network     = any_network<AgentT>();
    bool thrown            = vf::throws( [&] { simulation.create_model( options, std::nullopt ); } );
    constexpr bool fits    = std::is_same_v<AgentT, typename ModelT::AgentT>;
    if( !fits )
        vf::holds( "a model of other agents is rejected", thrown );
    if constexpr( fits )
    {
        vf::holds( "the model is created", !thrown );
        vf::holds( "there is a model", simulation.model.get() != nullptr );
        vf::holds( "it is the one selected", dynamic_cast<ModelT *>( simulation.model.get() ) != nullptr );
    }
}

template<typename AgentT>
void c27_models()
{
    selects<AgentT, DeGrootModel>( Config::Model::DeGroot, [] {
        Config::DeGrootSettings s;
        s.max_iterations  = any_max();
        s.convergence_tol = vf::real( "tol" );
        return s;
    }() );
    auto deffuant        = any_deffuant_settings();
    deffuant.use_network = false;
    auto vector          = deffuant;
    vector.use_binary_vector = true;
    selects<AgentT, DeffuantModel>( Config::Model::DeffuantModel, deffuant );
    selects<AgentT, DeffuantModelVector>( Config::Model::DeffuantModel, vector );
    selects<AgentT, ActivityDrivenModel>( Config::Model::ActivityDrivenModel, any_activity_settings<Config::ActivityDrivenSettings>() );
    selects<AgentT, InertialModel>( Config::Model::ActivityDrivenInertial, any_activity_settings<Config::ActivityDrivenInertialSettings>() );
}

void c27_simple()
{
    c27_models<SimpleAgent>();
}
void c27_activity()
{
    c27_models<ActivityAgent>();
}
void c27_inertial()
{
    c27_models<InertialAgent>();
}
void c27_vector()
{
    c27_models<DiscreteVectorAgent>();
}

inline std::optional<std::string> maybe( const char * name )
{
    if( vf::boolean( name ) )
        return vf::text( name );
    return std::nullopt;
}

// Where the network comes from
void c27_network()
{
    Config::SimulationOptions options;
    options.network_settings.n_agents      = vf::size( "n_agents" );
    options.network_settings.n_connections = vf::size( "n_connections" );
    options.network_settings.file          = maybe( "file of the settings" );
    auto given                             = maybe( "file of the command line" );
    auto simulation                        = empty_simulation<SimpleAgent>( options );
    int read = 0, generated = 0;
    size_t n = 0, k = 0;
    std::string name;
    auto on_read = [&]( const std::string & file )
    {
        read++;
        name = file;
        return Network<SimpleAgent>( 1 );
    };
    bool with_themselves = false, own_draws = false;
    auto on_generate = [&]( size_t n_agents, size_t n_connections, bool self_interaction, std::mt19937 & gen )
    {
        generated++;
        with_themselves = self_interaction;
        own_draws       = &gen == &simulation.gen;
        n = n_agents;
        k = n_connections;
        return Network<SimpleAgent>( 2 );
    };
    vf::replace( "Seldon::NetworkGeneration::generate_from_file", on_read );
    vf::replace( "Seldon::NetworkGeneration::generate_n_connections", on_generate );
    simulation.create_network( options, given );
    bool from_file = given.has_value() || options.network_settings.file.has_value();
    vf::holds( "read exactly when there is a file", ( read == 1 ) == from_file );
    vf::holds( "generated exactly when there is none", ( generated == 1 ) == !from_file );
    vf::same( "and it is the network", simulation.network.n_agents(), size_t( from_file ? 1 : 2 ) );
    if( from_file )
        vf::holds( "the file of the command line, if there is one", name == ( given.has_value() ? given : options.network_settings.file ).value() );
    else
    {
        vf::same( "with the number of agents", n, vf::size( "n_agents" ) );
        vf::same( "with the number of connections", k, vf::size( "n_connections" ) );
        vf::holds( "every agent among its own neighbours", with_themselves );
        vf::holds( "from the generator of the simulation", own_draws );
    }
}

// Both files are handed on, each to its own step, and the network comes first
void c27_simulation()
{
    Config::SimulationOptions options;
    options.output_settings.start_output = vf::size( "start_output" );
    auto network_file = maybe( "network file" ), agent_file = maybe( "agent file" );
    size_t steps = 0, network_at = 9, model_at = 9;
    std::optional<std::string> network_arg, agent_arg;
    auto on_network = [&]( const Config::SimulationOptions & o, const std::optional<std::string> & file )
    {
        network_at  = steps++;
        network_arg = file;
    };
    auto on_model = [&]( const Config::SimulationOptions & o, const std::optional<std::string> & file )
    {
        model_at  = steps++;
        agent_arg = file;
    };
    vf::replace( "Seldon::Simulation::create_network", on_network );
    vf::replace( "Seldon::Simulation::create_model", on_model );
    Simulation<SimpleAgent> simulation( options, network_file, agent_file );
    vf::same( "the network first", network_at, size_t( 0 ) );
    vf::same( "then the model", model_at, size_t( 1 ) );
    vf::same( "once each", steps, size_t( 2 ) );
    vf::holds( "a network file for the network", network_arg.has_value() == network_file.has_value() );
    if( network_file.has_value() )
        vf::holds( "the network file for the network", network_arg.value() == network_file.value() );
    vf::holds( "an agent file for the agents", agent_arg.has_value() == agent_file.has_value() );
    if( agent_file.has_value() )
        vf::holds( "the agent file for the agents", agent_arg.value() == agent_file.value() );
    vf::same( "the output settings", simulation.output_settings.start_output, vf::size( "start_output" ) );
}

// The program
void c27_main()
{
    Config::SimulationOptions options;
    size_t which = vf::size( "which" );
    bool binary  = vf::boolean( "binary" );
    vf::assume( which < 4 );
    if( which == 0 )
    {
        options.model          = Config::Model::DeGroot;
        options.model_settings = Config::DeGrootSettings();
    }
    else if( which == 1 )
    {
        options.model          = Config::Model::ActivityDrivenModel;
        options.model_settings = Config::ActivityDrivenSettings();
    }
    else if( which == 2 )
    {
        options.model          = Config::Model::ActivityDrivenInertial;
        options.model_settings = Config::ActivityDrivenInertialSettings();
    }
    else
    {
        options.model = Config::Model::DeffuantModel;
        Config::DeffuantSettings settings;
        settings.use_binary_vector = binary;
        options.model_settings     = settings;
    }
    options.output_settings.start_output = vf::size( "start_output" );

    std::string config, directory;
    size_t parsed = 0, validated = 0, networks = 0, models = 0, ran = 0;
    size_t agents = 9, start = 0;
    bool in_order = true;
    std::optional<std::string> network_arg, agent_arg;
    auto on_parse = [&]( std::string_view path )
    {
        parsed++;
        config = std::string( path );
        return options;
    };
    auto on_validate = [&]( const Config::SimulationOptions & o )
    {
        validated++;
        start = o.output_settings.start_output;
        if( vf::boolean( "invalid" ) )
            throw std::runtime_error( "invalid" );
    };
    auto on_network = [&]( const Config::SimulationOptions & o, const std::optional<std::string> & file )
    {
        in_order = in_order && validated == 1;
        networks++;
        network_arg = file;
    };
    auto on_model = [&]( const Config::SimulationOptions & o, const std::optional<std::string> & file )
    {
        in_order = in_order && networks == 1;
        models++;
        agent_arg = file;
    };
    auto run = [&]( const fs::path & path )
    {
        in_order = in_order && models == 1;
        ran++;
        directory = path.string();
    };
    auto run_simple   = [&]( const fs::path & path ) { agents = 0; run( path ); };
    auto run_activity = [&]( const fs::path & path ) { agents = 1; run( path ); };
    auto run_inertial = [&]( const fs::path & path ) { agents = 2; run( path ); };
    auto run_vector   = [&]( const fs::path & path ) { agents = 3; run( path ); };
    auto nothing      = [] {};
    vf::replace( "Seldon::Config::parse_config_file", on_parse );
    vf::replace( "Seldon::Config::validate_settings", on_validate );
    vf::replace( "Seldon::Config::print_settings", nothing );
    vf::replace( "Seldon::Simulation::create_network", on_network );
    vf::replace( "Seldon::Simulation::create_model", on_model );
    vf::replace( "Seldon::Simulation<Seldon::Agent<Seldon::SimpleAgentData>>::run", run_simple );
    vf::replace( "Seldon::Simulation<Seldon::Agent<Seldon::ActivityAgentData>>::run", run_activity );
    vf::replace( "Seldon::Simulation<Seldon::Agent<Seldon::InertialAgentData>>::run", run_inertial );
    vf::replace( "Seldon::Simulation<Seldon::Agent<Seldon::DiscreteVectorAgentData>>::run", run_vector );
    int status  = 1;
    bool thrown = vf::throws( [&] { status = vf::run_program(); } );

    vf::same( "the options are read once", parsed, size_t( 1 ) );
    vf::holds( "from the file of the command line", config == vf::argument( "config_file" ).value() );
    vf::same( "they are validated", validated, size_t( 1 ) );
    vf::same( "as they were read", start, vf::size( "start_output" ) );
    vf::holds( "invalid settings end the program", thrown == vf::boolean( "invalid" ) );
    vf::holds( "before anything is built", networks == ( thrown ? 0 : 1 ) );
    vf::assume( !thrown );
    vf::holds( "validation, network, model, run", in_order );
    vf::same( "one run", ran, size_t( 1 ) );
    vf::same( "the program reports success", status, 0 );
    vf::same( "of agents of the model's type", agents, size_t( which == 0 ? 0 : which == 1 ? 1 : which == 2 ? 2 : binary ? 3 : 0 ) );
    auto network_file = vf::argument( "--network" ), agent_file = vf::argument( "--agents" ), output = vf::argument( "--output" );
    vf::holds( "a network file for the network", network_arg.has_value() == network_file.has_value() );
    vf::holds( "the network file for the network", !network_file.has_value() || network_arg.value() == network_file.value() );
    vf::holds( "an agent file for the agents", agent_arg.has_value() == agent_file.has_value() );
    vf::holds( "the agent file for the agents", !agent_file.has_value() || agent_arg.value() == agent_file.value() );
    vf::holds( "into the directory of the command line", !output.has_value() || directory == output.value() );
    vf::holds( "or into ./output", output.has_value() || directory == "./output" );
}
} // namespace spec
