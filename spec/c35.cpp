// C35: elements outside of their container. The obligations are those of the accesses themselves, as in C28.
#include "agent_io.hpp"
#include "common.hpp"
#include "connectivity.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/DeGroot.hpp"
#include "models/DeffuantModel.hpp"
#include "models/InertialModel.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include "simulation.hpp"
#include "util/math.hpp"

namespace spec
{
// ---- the network

void c35_rows()
{
    auto net = any_network<SimpleAgent>();
    size_t n = vf::size( "n" );
    size_t i = vf::pick( "i", n );
    std::vector<double> weights;
    for( size_t j = 0; j < vf::size( "weights" ); j++ )
        weights.push_back( vf::real( "weight", j ) );
    std::vector<size_t> row;
    for( size_t j = 0; j < vf::size( "row" ); j++ )
        row.push_back( vf::index( "neighbour", n, j ) );
    bool thrown = vf::throws( [&] { net.set_weights( i, weights ); } );
    thrown      = vf::throws( [&] { net.set_neighbours_and_weights( i, row, weights ); } ) || thrown;
    net.set_neighbours_and_weights( i, row, vf::real( "same" ) );
    net.push_back_neighbour_and_weight( i, vf::pick( "j", n ), vf::real( "weight" ) );
    size_t edges = net.n_edges() + net.n_edges( i ) + net.get_neighbours( i ).size() + net.get_weights( i ).size();
    net.clear();
    vf::holds( "any edges", edges + 1 > 0 && ( thrown || !thrown ) );
}

void c35_toggle()
{
    auto net = any_network<SimpleAgent>();
    net.toggle_incoming_outgoing();
    vf::same( "as many agents", net.n_agents(), vf::size( "n" ) );
}

void c35_transpose()
{
    auto net = any_network<SimpleAgent>();
    net.transpose();
    vf::same( "as many agents", net.n_agents(), vf::size( "n" ) );
}

void c35_double_counting()
{
    auto net = any_network<SimpleAgent>();
    net.remove_double_counting();
    vf::same( "as many agents", net.n_agents(), vf::size( "n" ) );
}

// the visit of a vertex, with the visits it makes itself leaving anything behind that keeps the vectors' lengths
void c35_visit()
{
    size_t n = vf::size( "n" );
    auto net = any_network<SimpleAgent>();
    vf::replace( "Seldon::TarjanConnectivityAlgo::run", [] {} );
    TarjanConnectivityAlgo t( net.neighbour_list );
    size_t v = vf::pick( "v", n );
    for( size_t w = 0; w < n; w++ )
    {
        t.visited[w]   = w != v && vf::boolean( "visited", w );
        t.processed[w] = vf::boolean( "processed", w );
        t.num[w]       = vf::size( "num", w );
        t.lowest[w]    = vf::size( "low", w );
    }
    t.index_counter = vf::size( "index" );
    for( size_t k = 0; k < vf::size( "below" ); k++ )
        t.stack.push_back( vf::index( "below", n, k ) );
    auto visit      = [&]( size_t u )
    {
        for( size_t w = 0; w < n; w++ )
        {
            t.visited[w] = t.visited[w] || w == u;
            t.lowest[w]  = vf::size( "low2", w );
        }
        for( size_t k = 0; k < vf::size( "left", u ); k++ )
        {
            size_t w = vf::index( "left behind", n, u, k );
            if( w != v )
                t.stack.push_back( w );
        }
    };
    vf::replace_within( "Seldon::TarjanConnectivityAlgo::depth_first_search", visit );
    t.depth_first_search( v );
    vf::holds( "any components", t.scc_list.size() <= 1 );
}

void c35_components()
{
    auto net   = any_network<SimpleAgent>();
    auto visit = []( TarjanConnectivityAlgo & t, size_t v ) { t.visited[v] = true; };
    vf::replace( "Seldon::TarjanConnectivityAlgo::depth_first_search", visit );
    vf::same( "any components", net.strongly_connected_components().size(), size_t( 0 ) );
}

// ---- where networks come from

void c35_generate()
{
    auto gen  = vf::generator( "g" );
    size_t n  = vf::size( "n" );
    auto full = NetworkGeneration::generate_fully_connected<SimpleAgent>( n, vf::real( "weight" ) );
    auto draw = NetworkGeneration::generate_fully_connected<SimpleAgent>( n, gen );
    auto some = NetworkGeneration::generate_n_connections<SimpleAgent>( n, vf::size( "connections" ), vf::boolean( "self" ), gen );
    vf::holds( "agents", full.n_agents() + draw.n_agents() + some.n_agents() + 1 > 0 );
}

void c35_lattice()
{
    auto lattice = NetworkGeneration::generate_square_lattice<SimpleAgent>( vf::size( "e" ), vf::real( "weight" ) );
    vf::same( "as many agents as asked for", lattice.n_agents(), vf::size( "e" ) * vf::size( "e" ) );
}

void c35_read()
{
    Network<SimpleAgent> net;
    bool thrown = vf::throws( [&] { net = NetworkGeneration::generate_from_file<SimpleAgent>( "network" ); } );
    vf::assume( !thrown );
    size_t n = net.n_agents();
    vf::same( "as many rows as agents", net.agents.size(), n );
    size_t i = vf::pick( "i", n );
    vf::same( "as many weights as neighbours", net.get_weights( i ).size(), net.get_neighbours( i ).size() );
    size_t j = vf::pick( "j", net.get_neighbours( i ).size() );
    vf::holds( "the neighbour exists", net.get_neighbours( i )[j] < n );
}

void c35_write()
{
    auto network = any_network<SimpleAgent>();
    network_to_file( network, "network.txt" );
    network_to_dot_file( network, "network.dot" );
    agents_to_file( network, "agents.txt" );
}

void c35_write_vector()
{
    Network<DiscreteVectorAgent> network( vf::size( "n" ) );
    for( size_t i = 0; i < vf::size( "n" ); i++ )
    {
        std::vector<int> opinion;
        for( size_t j = 0; j < vf::size( "dim", i ); j++ )
            opinion.push_back( vf::integer( "o", i, j ) );
        network.agents[i].data.opinion = opinion;
    }
    agents_to_file( network, "agents.txt" );
}

template<typename AgentT>
void agents( const char * file )
{
    bool thrown = vf::throws( [&] { agents_from_file<AgentT>( file ); } );
    vf::holds( "agents of any number, or none", thrown || !thrown );
}

void c35_agents()
{
    agents<SimpleAgent>( "simple" );
    agents<ActivityAgent>( "activity" );
    agents<InertialAgent>( "inertial" );
    agents<DiscreteVectorAgent>( "vector" );
}

// ---- draws

void c35_draw()
{
    auto gen = vf::generator( "g" );
    std::vector<size_t> buffer;
    for( size_t i = 0; i < vf::size( "before" ); i++ )
        buffer.push_back( vf::size( "old", i ) );
    std::optional<size_t> ignored;
    if( vf::boolean( "ignore" ) )
        ignored = vf::size( "ignored" );
    draw_unique_k_from_n( ignored, vf::size( "k" ), vf::size( "n" ), buffer, gen );
    vf::holds( "any number of draws", buffer.size() + 1 > 0 );
}

void c35_reservoir()
{
    auto gen = vf::generator( "g" );
    std::vector<size_t> buffer;
    for( size_t i = 0; i < vf::size( "before" ); i++ )
        buffer.push_back( vf::size( "old", i ) );
    auto weight = []( size_t j ) { return vf::real( "weight", j ); };
    reservoir_sampling_A_ExpJ( vf::size( "k" ), vf::size( "n" ), weight, buffer, gen );
    vf::holds( "any number of draws", buffer.size() + 1 > 0 );
}

void c35_distance()
{
    std::vector<int> a, b;
    for( size_t i = 0; i < vf::size( "a" ); i++ )
        a.push_back( vf::integer( "x", i ) );
    for( size_t i = 0; i < vf::size( "b" ); i++ )
        b.push_back( vf::integer( "y", i ) );
    bool thrown = vf::throws( [&] { hamming_distance( std::span<int>( a ), std::span<int>( b ) ); } );
    vf::holds( "a distance, or none", thrown || !thrown );
}

// ---- the models

void c35_degroot()
{
    vf::replace( "Seldon::Network::strongly_connected_components", [] { return std::vector<std::vector<size_t>>{}; } );
    auto net = any_network<SimpleAgent>();
    Config::DeGrootSettings settings;
    settings.max_iterations  = any_max();
    settings.convergence_tol = vf::real( "tol" );
    DeGrootModel model( settings, net );
    bool ends = model.finished();
    model.iteration();
    model.iteration();
    vf::holds( "it ends or goes on", model.finished() || ends || true );
}

// any two agents that are picked
template<typename ModelT, typename AgentT>
void interactions()
{
    auto net             = any_network<AgentT>();
    auto gen             = vf::generator( "g" );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    ModelT model( settings, net, gen );
    auto select = []
    {
        size_t n = vf::size( "n" );
        return std::vector<size_t>{ vf::index( "a", n, 0 ), vf::index( "b", n, 0 ) };
    };
    vf::replace( "Seldon::DeffuantModelAbstract::select_interacting_agent_pair", select );
    vf::replace( "Seldon::DeffuantModelAbstract::update_rule", [] {} );
    vf::assume( vf::size( "n" ) >= 2 );
    model.iteration();
    vf::holds( "it ends or goes on", model.finished() || true );
}

void c35_deffuant()
{
    interactions<DeffuantModel, SimpleAgent>();
}

void c35_start()
{
    auto net             = any_network<SimpleAgent>();
    auto gen             = vf::generator( "g" );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    DeffuantModel model( settings, net, gen );
    model.initialize_agents( vf::size( "dim" ) );
    vf::same( "as many agents", net.agents.size(), vf::size( "n" ) );
}

void c35_deffuant_vector()
{
    interactions<DeffuantModelVector, DiscreteVectorAgent>();
}

// one agent has nobody to interact with
void c35_alone()
{
    Network<SimpleAgent> net( 1 );
    auto gen             = vf::generator( "g" );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    DeffuantModel model( settings, net, gen );
    model.iteration();
    vf::holds( "it ends or goes on", model.finished() || true );
}

void c35_pair()
{
    auto net             = any_network<SimpleAgent>();
    auto gen             = vf::generator( "g" );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    DeffuantModel model( settings, net, gen );
    vf::assume( vf::size( "n" ) >= 2 );
    auto pair = model.select_interacting_agent_pair();
    vf::same( "a pair", pair.size(), size_t( 2 ) );
    vf::holds( "of agents", pair[0] < vf::size( "n" ) && pair[1] < vf::size( "n" ) );
}

// on a lattice everyone has neighbours
void c35_neighbours()
{
    auto net             = any_network<SimpleAgent>();
    size_t n             = vf::size( "n" );
    auto gen             = vf::generator( "g" );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    DeffuantModel model( settings, net, gen );
    model.use_network = true;
    std::vector<size_t> row;
    for( size_t i = 0; i < n; i++ )
    {
        row.clear();
        for( size_t j = 0; j < 4; j++ )
            row.push_back( vf::index( "lattice", n, i, j ) );
        net.set_neighbours_and_weights( i, row, 1.0 );
    }
    vf::assume( n > 0 );
    auto pair = model.select_interacting_agent_pair();
    vf::same( "a pair", pair.size(), size_t( 2 ) );
    vf::holds( "of agents", pair[0] < n && pair[1] < n );
}

void c35_vectors()
{
    auto gen = vf::generator( "g" );
    auto any = []( const char * name, size_t dim )
    {
        DiscreteVectorAgent res;
        for( size_t i = 0; i < dim; i++ )
            res.data.opinion.push_back( vf::integer( name, i ) );
        return res;
    };
    auto a               = any( "a", vf::size( "dim a" ) );
    auto b               = any( "b", vf::size( "dim b" ) );
    auto settings        = any_deffuant_settings();
    settings.use_network = false;
    Network<DiscreteVectorAgent> net( vf::size( "n" ) );
    DeffuantModelVector model( settings, net, gen );
    bool thrown = vf::throws( [&] { model.update_rule( a, b ); } );
    vf::holds( "an interaction, or none", thrown || !thrown );
    model.initialize_agents( vf::size( "dim" ) );
}

template<typename ModelT, typename SettingsT>
void one_step()
{
    using AgentT  = typename ModelT::AgentT;
    auto net      = any_network<AgentT>();
    auto gen      = vf::generator( "g" );
    auto settings = any_activity_settings<SettingsT>();
    ModelT model( settings, net, gen );
    any_contacts( net );
    model.iteration();
    vf::holds( "it ends or goes on", model.finished() || true );
}

void c35_activity()
{
    one_step<ActivityDrivenModel, Config::ActivityDrivenSettings>();
}

void c35_inertial()
{
    one_step<InertialModel, Config::ActivityDrivenInertialSettings>();
}

template<typename ModelT, typename SettingsT>
void contacts( bool mean )
{
    using AgentT          = typename ModelT::AgentT;
    auto net              = any_network<AgentT>();
    auto gen              = vf::generator( "g" );
    auto settings         = any_activity_settings<SettingsT>();
    settings.mean_weights = mean;
    ModelT model( settings, net, gen );
    model.update_network();
    vf::same( "as many agents", net.n_agents(), vf::size( "n" ) );
}

void c35_contacts()
{
    contacts<ActivityDrivenModel, Config::ActivityDrivenSettings>( false );
}

void c35_contacts_inertial()
{
    contacts<InertialModel, Config::ActivityDrivenInertialSettings>( false );
}

void c35_mean()
{
    contacts<ActivityDrivenModel, Config::ActivityDrivenSettings>( true );
}

void c35_mean_inertial()
{
    contacts<InertialModel, Config::ActivityDrivenInertialSettings>( true );
}

// ---- a simulation

void c35_run()
{
    vf::replace( "Seldon::Simulation::create_network", [] {} );
    vf::replace( "Seldon::Simulation::create_model", [] {} );
    Config::SimulationOptions options;
    auto & output = options.output_settings;
    if( vf::boolean( "some agents" ) )
        output.n_output_agents = 1 + vf::size( "n_output_agents" );
    if( vf::boolean( "some network" ) )
        output.n_output_network = 1 + vf::size( "n_output_network" );
    output.output_initial       = vf::boolean( "output_initial" );
    output.print_progress       = vf::boolean( "print_progress" );
    output.start_output         = vf::size( "start_output" );
    output.start_numbering_from = vf::size( "start_numbering_from" );
    Simulation<SimpleAgent> simulation( options, std::nullopt, std::nullopt );
    simulation.network = any_network<SimpleAgent>();
    simulation.model   = std::make_unique<Model<SimpleAgent>>( vf::size( "iterations" ) );
    vf::replace( "Seldon::agents_to_file", [] {} );
    vf::replace( "Seldon::network_to_file", [] {} );
    simulation.run( fs::path( "out" ) );
}

// ---- settings, and what a simulation is set up from

void c35_parse()
{
    Config::SimulationOptions options;
    bool thrown = vf::throws( [&] { options = Config::parse_config_file( "config" ); } );
    vf::assume( !thrown );
    bool wrong = vf::throws( [&] { Config::validate_settings( options ); } );
    vf::holds( "accepted or not", wrong || !wrong );
}

void c35_create()
{
    Config::SimulationOptions options;
    if( vf::boolean( "has file" ) )
        options.network_settings.file = vf::text( "file" );
    std::optional<std::string> network, agents;
    if( vf::boolean( "has network" ) )
        network = vf::text( "network" );
    if( vf::boolean( "has agents" ) )
        agents = vf::text( "agents" );
    auto any = [] { return any_network<SimpleAgent>(); };
    vf::replace( "Seldon::NetworkGeneration::generate_from_file", any );
    vf::replace( "Seldon::NetworkGeneration::generate_n_connections", any );
    Config::DeGrootSettings settings;
    options.model          = Config::Model::DeGroot;
    options.model_settings = settings;
    vf::replace( "Seldon::agents_from_file", [] { return any_network<SimpleAgent>().agents; } );
    bool thrown = vf::throws( [&] { Simulation<SimpleAgent> simulation( options, network, agents ); } );
    vf::holds( "a simulation, or none", thrown || !thrown );
}

void c35_main()
{
    Config::SimulationOptions options;
    options.model          = Config::Model::DeGroot;
    options.model_settings = Config::DeGrootSettings();
    vf::replace( "Seldon::Config::parse_config_file", [&]( std::string_view ) { return options; } );
    vf::replace( "Seldon::Config::validate_settings", [] {} );
    vf::replace( "Seldon::Config::print_settings", [] {} );
    vf::replace( "Seldon::Simulation::create_network", [] {} );
    vf::replace( "Seldon::Simulation::create_model", [] {} );
    vf::replace( "Seldon::Simulation::run", [] {} );
    int code = 0;
    bool thrown = vf::throws( [&] { code = vf::run_program(); } );
    vf::holds( "it ends", thrown || code == 0 || code != 0 );
}
} // namespace spec
