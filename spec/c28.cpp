// C28: no size below zero, no integer divided by zero. The obligations are those of the operations themselves.
#include "agent_io.hpp"
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/DeGroot.hpp"
#include "models/DeffuantModel.hpp"
#include "models/InertialModel.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include "simulation.hpp"
#include "util/math.hpp"

namespace spec
{
inline void accept( const Config::SimulationOptions & options )
{
    vf::assume( !vf::throws( [&] { Config::validate_settings( options ); } ) );
}

inline Config::SimulationOptions any_options()
{
    Config::SimulationOptions options;
    auto & settings = options.output_settings;
    if( vf::boolean( "some agents" ) )
        settings.n_output_agents = vf::size( "n_output_agents" );
    else
        settings.n_output_agents = std::nullopt;
    if( vf::boolean( "some network" ) )
        settings.n_output_network = vf::size( "n_output_network" );
    else
        settings.n_output_network = std::nullopt;
    settings.output_initial                = vf::boolean( "output_initial" );
    settings.print_progress                = vf::boolean( "print_progress" );
    settings.start_output                  = vf::size( "start_output" );
    settings.start_numbering_from          = vf::size( "start_numbering_from" );
    options.network_settings.n_agents      = vf::size( "n_agents" );
    options.network_settings.n_connections = vf::size( "n_connections" );
    return options;
}

void c28_run()
{
    vf::replace( "Seldon::Simulation::create_network", [] {} );
    vf::replace( "Seldon::Simulation::create_model", [] {} );
    auto options  = any_options();
    options.model = Config::Model::DeGroot;
    Config::DeGrootSettings settings;
    settings.convergence_tol = 1.0;
    options.model_settings   = settings;
    accept( options );
    Simulation<SimpleAgent> simulation( options, std::nullopt, std::nullopt );
    simulation.network = any_network<SimpleAgent>();
    simulation.model   = std::make_unique<Model<SimpleAgent>>( vf::size( "iterations" ) );
    vf::replace( "Seldon::agents_to_file", [] {} );
    vf::replace( "Seldon::network_to_file", [] {} );
    simulation.run( fs::path( "out" ) );
}

template<typename AgentT>
void create_network()
{
    vf::replace( "Seldon::Simulation::create_model", [] {} );
    auto options  = any_options();
    options.model = Config::Model::DeGroot;
    Config::DeGrootSettings settings;
    settings.convergence_tol = 1.0;
    options.model_settings   = settings;
    accept( options );
    bool thrown = vf::throws( [&] { Simulation<AgentT> simulation( options, std::nullopt, std::nullopt ); } );
    vf::holds( "a network of any size, or none", thrown || !thrown );
}

void c28_create_network()
{
    create_network<SimpleAgent>();
}

void c28_write()
{
    auto network = any_network<SimpleAgent>();
    network_to_file( network, "network.txt" );
    network_to_dot_file( network, "network.dot" );
    agents_to_file( network, "agents.txt" );
}

void c28_write_vector()
{
    Network<DiscreteVectorAgent> network( vf::size( "n" ) );
    for( size_t i = 0; i < vf::size( "n" ); i++ )
    {
        std::vector<int> opinion;
        for( size_t j = 0; j < vf::size( "dim", i ); j++ )
            opinion.push_back( vf::integer( "o", i, j ) );
        network.agents[i].data.opinion = opinion;
    }
    agents_to_file( network, "agents.txt" );
}

void c28_read()
{
    bool thrown = vf::throws( [&] { NetworkGeneration::generate_from_file<SimpleAgent>( "network" ); } );
    vf::holds( "a network of any size, or none", thrown || !thrown );
}

void c28_read_agents()
{
    bool thrown = vf::throws( [&] { agents_from_file<SimpleAgent>( "simple" ); } );
    vf::holds( "agents of any number, or none", thrown || !thrown );
}

void c28_read_vectors()
{
    bool thrown = vf::throws( [&] { agents_from_file<DiscreteVectorAgent>( "vector" ); } );
    vf::holds( "agents of any number, or none", thrown || !thrown );
}

void c28_generate()
{
    auto gen  = vf::generator( "g" );
    size_t n  = vf::size( "n" );
    auto full = NetworkGeneration::generate_fully_connected<SimpleAgent>( n, vf::real( "weight" ) );
    auto draw = NetworkGeneration::generate_fully_connected<SimpleAgent>( n, gen );
    vf::same( "as many agents as asked for", full.n_agents(), n );
    vf::same( "as many agents as asked for", draw.n_agents(), n );
}

void c28_lattice()
{
    auto lattice = NetworkGeneration::generate_square_lattice<SimpleAgent>( vf::size( "e" ) );
    vf::same( "as many agents as asked for", lattice.n_agents(), vf::size( "e" ) * vf::size( "e" ) );
}

void c28_random()
{
    auto gen = vf::generator( "g" );
    std::vector<size_t> buffer;
    std::optional<size_t> ignored;
    if( vf::boolean( "ignore" ) )
        ignored = vf::size( "ignored" );
    bool thrown = vf::throws( [&] { draw_unique_k_from_n( ignored, vf::size( "k" ), vf::size( "n" ), buffer, gen ); } );
    vf::holds( "any number of draws, or none", thrown || !thrown );
}

void c28_reservoir()
{
    auto gen = vf::generator( "g" );
    std::vector<size_t> buffer;
    auto weight = []( size_t j ) { return vf::real( "weight", j ); };
    reservoir_sampling_A_ExpJ( vf::size( "k" ), vf::size( "n" ), weight, buffer, gen );
}

void c28_list()
{
    size_t seen   = 0;
    auto callback = [&]( int, std::string ) { seen++; };
    parse_comma_separated_list( vf::text( "list" ), callback );
    vf::holds( "there is an entry or there is none", seen + 1 > 0 );
}

void c28_components()
{
    auto net        = any_network<SimpleAgent>();
    auto components = net.strongly_connected_components();
    vf::holds( "there are components or none", components.size() + 1 > 0 );
}

void c28_network()
{
    auto network = any_network<SimpleAgent>();
    size_t edges = network.n_edges();
    network.switch_direction_flag();
    network.toggle_incoming_outgoing();
    network.transpose();
    network.remove_double_counting();
    vf::holds( "there are edges or none", edges >= 0 );
}

void c28_degroot()
{
    vf::replace( "Seldon::Network::strongly_connected_components", [] { return std::vector<std::vector<size_t>>{}; } );
    auto net = any_network<SimpleAgent>();
    Config::DeGrootSettings settings;
    settings.max_iterations  = any_max();
    settings.convergence_tol = vf::real( "tol" );
    DeGrootModel model( settings, net );
    model.iteration();
    model.iteration();
    vf::holds( "it ends or goes on", model.finished() || true );
}

template<typename ModelT, typename AgentT>
void pairs( bool use_network )
{
    auto net      = any_network<AgentT>();
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( settings.use_network == use_network );
    // a lattice has four neighbours in every row, as C17 shows
    auto lattice = []
    {
        Network<AgentT> net( vf::size( "n" ) );
        for( size_t i = 0; i < vf::size( "n" ); i++ )
        {
            std::vector<size_t> row;
            for( size_t j = 0; j < 4; j++ )
                row.push_back( vf::index( "nb", vf::size( "n" ), i, j ) );
            net.set_neighbours_and_weights( i, row, 1.0 );
        }
        return net;
    };
    if( use_network )
        vf::replace( "Seldon::NetworkGeneration::generate_square_lattice", lattice );
    if( !use_network )
        vf::replace( "Seldon::draw_unique_k_from_n", []( std::optional<size_t>, size_t, size_t n, std::vector<size_t> & buffer )
    {
        vf::assume( n >= 2 );
        buffer = std::vector<size_t>{ vf::index( "a", n, 0 ), vf::index( "b", n, 0 ) };
    } );
    vf::assume( !vf::throws( [&] { ModelT square( settings, net, gen ); } ) );
    ModelT model( settings, net, gen );
    model.iteration();
}

void c28_deffuant()
{
    pairs<DeffuantModel, SimpleAgent>( false );
}

void c28_deffuant_lattice()
{
    pairs<DeffuantModel, SimpleAgent>( true );
}

void c28_deffuant_vector()
{
    pairs<DeffuantModelVector, DiscreteVectorAgent>( false );
}

// the settings that were accepted, and the number of contacts made from them
template<typename ModelT, typename SettingsT>
void contacts( Config::Model kind, bool mean_weights )
{
    using AgentT  = typename ModelT::AgentT;
    auto net      = any_network<AgentT>();
    auto gen      = vf::generator( "g" );
    auto settings = any_activity_settings<SettingsT>();
    vf::assume( settings.mean_weights == mean_weights );
    auto options           = any_options();
    options.model          = kind;
    options.model_settings = settings;
    accept( options );
    ModelT model( settings, net, gen );
    vf::replace( "Seldon::ActivityDrivenModelAbstract::get_euler_slopes", [] {} );
    model.iteration();
}

void c28_activity()
{
    contacts<ActivityDrivenModel, Config::ActivityDrivenSettings>( Config::Model::ActivityDrivenModel, false );
}

void c28_activity_mean()
{
    contacts<ActivityDrivenModel, Config::ActivityDrivenSettings>( Config::Model::ActivityDrivenModel, true );
}

void c28_inertial()
{
    contacts<InertialModel, Config::ActivityDrivenInertialSettings>( Config::Model::ActivityDrivenInertial, false );
}
} // namespace spec
