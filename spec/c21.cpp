// C21: which output files are written, when, and what they show.
#include "agent_io.hpp"
#include "common.hpp"
#include "simulation.hpp"

namespace spec
{
inline void set_weight( Network<SimpleAgent> & network, size_t n )
{
    std::vector<double> weights( network.get_neighbours( 0 ).size(), vf::real( "weight", n ) );
    network.set_weights( 0, weights );
}

// a model whose every iteration gives the agents and the weights new arbitrary values
class AnyModel : public Model<SimpleAgent>
{
public:
    AnyModel( size_t iterations, Network<SimpleAgent> & network )
            : Model<SimpleAgent>( iterations ), network( network ) {}

    void initialize_iterations() override
    {
        Model<SimpleAgent>::initialize_iterations();
        change( 0 );
    }

    void iteration() override
    {
        Model<SimpleAgent>::iteration();
        change( n_iterations() );
    }

private:
    Network<SimpleAgent> & network;

    void change( size_t n )
    {
        network.agents[0].data.opinion = vf::real( "opinion", n + 1 );
        set_weight( network, n + 1 );
    }
};

struct Write
{
    std::string path;
    double opinion, weight;
};

inline std::string file_name( const std::string & kind, size_t number )
{
    return ( fs::path( vf::text( "directory" ) ) / fs::path( fmt::format( "{}_{}.txt", kind, number ) ) ).string();
}

inline std::vector<Write> expected_writes( const Config::OutputSettings & settings, const std::string & kind, const std::optional<size_t> & interval )
{
    std::vector<Write> res;
    size_t first = settings.start_numbering_from;
    if( settings.output_initial )
        res.push_back( Write{ file_name( kind, first ), vf::real( "opinion", 0 ), vf::real( "weight", 0 ) } );
    size_t iterations = vf::size( "iterations" );
    for( size_t n = 1; n <= iterations; n++ )
    {
        if( interval.has_value() && n >= settings.start_output && n % interval.value() == 0 )
            res.push_back( Write{ file_name( kind, n + first ), vf::real( "opinion", n + 1 ), vf::real( "weight", n + 1 ) } );
    }
    return res;
}

inline void compare( const char * what, const std::vector<Write> & a, const std::vector<Write> & b )
{
    vf::same( what, a.size(), b.size() );
    size_t i = vf::pick( what, b.size() );
    vf::same( what, a[i].path, b[i].path );
    vf::same( what, a[i].opinion, b[i].opinion );
    vf::same( what, a[i].weight, b[i].weight );
}

void c21()
{
    auto nothing = [] {};
    vf::replace( "Seldon::Simulation::create_network", nothing );
    vf::replace( "Seldon::Simulation::create_model", nothing );
    Config::SimulationOptions options;
    auto & settings = options.output_settings;
    if( vf::boolean( "some agents" ) )
        settings.n_output_agents = vf::size( "n_output_agents" ) + 1;
    else
        settings.n_output_agents = std::nullopt;
    if( vf::boolean( "some network" ) )
        settings.n_output_network = vf::size( "n_output_network" ) + 1;
    else
        settings.n_output_network = std::nullopt;
    settings.output_initial       = vf::boolean( "output_initial" );
    settings.print_progress       = vf::boolean( "print_progress" );
    settings.start_output         = vf::size( "start_output" );
    settings.start_numbering_from = vf::size( "start_numbering_from" );
    Simulation<SimpleAgent> simulation( options, std::nullopt, std::nullopt );
    simulation.network                        = any_network<SimpleAgent>();
    vf::assume( simulation.network.n_agents() > 0 );
    simulation.network.agents[0].data.opinion = vf::real( "opinion", 0 );
    vf::assume( simulation.network.get_neighbours( 0 ).size() > 0 );
    set_weight( simulation.network, 0 );
    simulation.model = std::make_unique<AnyModel>( vf::size( "iterations" ), simulation.network );
    // A run counts its own iterations, whatever the model did before
    for( size_t i = 0; i < vf::size( "earlier" ); i++ )
        simulation.model->Model<SimpleAgent>::iteration();

    std::vector<Write> agents, networks;
    auto on_agents = [&]( const Network<SimpleAgent> & network, const std::string & path )
    { agents.push_back( Write{ path, network.agents[0].data.opinion, network.get_weights( 0 )[0] } ); };
    auto on_network = [&]( const Network<SimpleAgent> & network, const std::string & path )
    { networks.push_back( Write{ path, network.agents[0].data.opinion, network.get_weights( 0 )[0] } ); };
    vf::replace( "Seldon::agents_to_file", on_agents );
    vf::replace( "Seldon::network_to_file", on_network );
    simulation.run( fs::path( vf::text( "directory" ) ) );

    vf::same( "every iteration is done", simulation.model->n_iterations(), vf::size( "iterations" ) );
    compare( "opinion files", agents, expected_writes( settings, "opinions", settings.n_output_agents ) );
    compare( "network files", networks, expected_writes( settings, "network", settings.n_output_network ) );
}
} // namespace spec
