// C22: agent files.
#include "common.hpp"
#include "agent_io.hpp"
#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "simulation.hpp"

namespace spec
{
// What stands behind the first comma of an agent's line
inline std::string row( const std::string & columns )
{
    return fmt::format( " {:>25}", columns );
}

inline void same_agent( const char * what, const SimpleAgent & a, const SimpleAgent & b )
{
    vf::exactly( what, a.data.opinion, b.data.opinion );
}

inline void same_agent( const char * what, const ActivityAgent & a, const ActivityAgent & b )
{
    vf::exactly( what, a.data.opinion, b.data.opinion );
    vf::exactly( what, a.data.activity, b.data.activity );
    vf::exactly( what, a.data.reluctance, b.data.reluctance );
}

inline void same_agent( const char * what, const InertialAgent & a, const InertialAgent & b )
{
    vf::exactly( what, a.data.opinion, b.data.opinion );
    vf::exactly( what, a.data.velocity, b.data.velocity );
    vf::exactly( what, a.data.activity, b.data.activity );
    vf::exactly( what, a.data.reluctance, b.data.reluctance );
}

inline void same_agent( const char * what, const DiscreteVectorAgent & a, const DiscreteVectorAgent & b )
{
    vf::same( what, a.data.opinion.size(), b.data.opinion.size() );
    size_t k = vf::pick( "k", b.data.opinion.size() );
    vf::same( what, a.data.opinion[k], b.data.opinion[k] );
}

// What an agent's columns hold is read back into the same fields
void c22_simple()
{
    SimpleAgent agent;
    agent.data.opinion = vf::real( "opinion" );
    auto back          = agent_from_string<SimpleAgent>( agent_to_string( agent ) );
    vf::exactly( "the opinion is read back", back.data.opinion, agent.data.opinion );
    auto names = agent_to_string_column_names<SimpleAgent>();
    vf::same( "one column", names.size(), size_t( 1 ) );
    vf::holds( "it is the opinion", names[0] == "opinion" );
    vf::exactly( "the opinion as text", std::stod( opinion_to_string( agent ) ), agent.data.opinion );
    // The line of the file continues behind the columns
    auto from_row = agent_from_string<SimpleAgent>( row( agent_to_string( agent ) ) );
    vf::exactly( "the opinion is read back from a row", from_row.data.opinion, agent.data.opinion );
}

void c22_activity()
{
    ActivityAgent agent;
    agent.data.opinion    = vf::real( "opinion" );
    agent.data.activity   = vf::real( "activity" );
    agent.data.reluctance = vf::real( "reluctance" );
    auto back             = agent_from_string<ActivityAgent>( row( agent_to_string( agent ) ) );
    vf::exactly( "the opinion is read back", back.data.opinion, agent.data.opinion );
    vf::exactly( "the activity is read back", back.data.activity, agent.data.activity );
    vf::exactly( "the reluctance is read back", back.data.reluctance, agent.data.reluctance );
    auto names = agent_to_string_column_names<ActivityAgent>();
    vf::same( "three columns", names.size(), size_t( 3 ) );
    vf::holds( "they are opinion, activity and reluctance", names[0] == "opinion" && names[1] == "activity" && names[2] == "reluctance" );
    vf::exactly( "the opinion as text", std::stod( opinion_to_string( agent ) ), agent.data.opinion );
    // Files without the last column
    auto two = agent_from_string<ActivityAgent>( fmt::format( " {}, {}", agent.data.opinion, agent.data.activity ) );
    vf::exactly( "opinion of a file without reluctance", two.data.opinion, agent.data.opinion );
    vf::exactly( "activity of a file without reluctance", two.data.activity, agent.data.activity );
    vf::exactly( "reluctance of a file without reluctance", two.data.reluctance, 1.0 );
    // however the columns are spaced
    auto dense = agent_from_string<ActivityAgent>( fmt::format( "{},{},{}", agent.data.opinion, agent.data.activity, agent.data.reluctance ) );
    vf::exactly( "opinion of columns without blanks", dense.data.opinion, agent.data.opinion );
    vf::exactly( "activity of columns without blanks", dense.data.activity, agent.data.activity );
    vf::exactly( "reluctance of columns without blanks", dense.data.reluctance, agent.data.reluctance );
}

void c22_inertial()
{
    InertialAgent agent;
    agent.data.opinion    = vf::real( "opinion" );
    agent.data.velocity   = vf::real( "velocity" );
    agent.data.activity   = vf::real( "activity" );
    agent.data.reluctance = vf::real( "reluctance" );
    auto back             = agent_from_string<InertialAgent>( row( agent_to_string( agent ) ) );
    vf::exactly( "the opinion is read back", back.data.opinion, agent.data.opinion );
    vf::exactly( "the velocity is read back", back.data.velocity, agent.data.velocity );
    vf::exactly( "the activity is read back", back.data.activity, agent.data.activity );
    vf::exactly( "the reluctance is read back", back.data.reluctance, agent.data.reluctance );
    auto names = agent_to_string_column_names<InertialAgent>();
    vf::same( "four columns", names.size(), size_t( 4 ) );
    vf::holds( "they are opinion, velocity, activity and reluctance",
               names[0] == "opinion" && names[1] == "velocity" && names[2] == "activity" && names[3] == "reluctance" );
    vf::exactly( "the opinion as text", std::stod( opinion_to_string( agent ) ), agent.data.opinion );
    // however the columns are spaced
    auto dense = agent_from_string<InertialAgent>( fmt::format( "{},{},{},{}", agent.data.opinion, agent.data.velocity, agent.data.activity, agent.data.reluctance ) );
    vf::exactly( "opinion of columns without blanks", dense.data.opinion, agent.data.opinion );
    vf::exactly( "velocity of columns without blanks", dense.data.velocity, agent.data.velocity );
    vf::exactly( "activity of columns without blanks", dense.data.activity, agent.data.activity );
    vf::exactly( "reluctance of columns without blanks", dense.data.reluctance, agent.data.reluctance );
}

void c22_vector()
{
    DiscreteVectorAgent agent;
    size_t dim = vf::size( "dim" );
    vf::assume( dim >= 1 );
    agent.data.opinion.clear();
    for( size_t i = 0; i < dim; i++ )
        agent.data.opinion.push_back( vf::integer( "opinion", i ) );
    auto back = agent_from_string<DiscreteVectorAgent>( row( agent_to_string( agent ) ) );
    vf::same( "as many opinions", back.data.opinion.size(), dim );
    size_t k = vf::pick( "k", dim );
    vf::same( "each opinion is read back", back.data.opinion[k], agent.data.opinion[k] );
    auto text = vf::entries( opinion_to_string( agent ) );
    vf::same( "as many opinions as text", text.size(), dim );
    vf::same( "the opinion as text", std::stoi( text[k] ), agent.data.opinion[k] );
    DiscreteVectorAgent nobody;
    nobody.data.opinion.clear();
    vf::same( "the columns of an agent without opinions", agent_to_string( nobody ), std::string() );
}

template<typename AgentT>
std::string expected_file( const Network<AgentT> & network )
{
    std::string text = "# idx_agent";
    for( auto & name : agent_to_string_column_names<AgentT>() )
        text += fmt::format( ", {}", name );
    text += '\n';
    for( size_t i = 0; i < network.n_agents(); i++ )
        text += fmt::format( "{:>5}, {:>25}\n", i, agent_to_string( network.agents[i] ) );
    return text;
}

template<typename AgentT>
void written( const Network<AgentT> & network )
{
    vf::clear_files();
    agents_to_file( network, "agents.txt" );
    auto files = vf::files();
    vf::same( "one file", files.size(), size_t( 1 ) );
    vf::holds( "with the given name", files[0].path == "agents.txt" );
    vf::same( "its old content gone", files[0].mode, std::string( "out|trunc" ) );
    std::string text = files[0].content;
    auto lines       = vf::lines( text );
    auto names       = agent_to_string_column_names<AgentT>();
    auto header      = vf::entries( lines[0] );
    vf::same( "a header and a line per agent", lines.size(), network.n_agents() + 1 );
    vf::lemma( "a header and a line per agent", text, expected_file( network ) );
    vf::holds( "the header is a comment", lines[0][0] == '#' );
    vf::lemma( "the header is a comment", text, expected_file( network ) );
    vf::same( "the header names the columns", header.size(), names.size() + 1 );
    size_t c = vf::pick( "c", names.size() );
    vf::holds( "the header names the columns", header[c + 1].find( names[c] ) != std::string::npos );
    vf::lemma( "the header names the columns", text, expected_file( network ) );
    size_t i = vf::pick( "i", network.n_agents() );
    auto row = lines[i + 1];
    vf::same( "the index comes first", std::stoi( row ), i );
    vf::lemma( "the index comes first", text, expected_file( network ) );
    same_agent( "the row reads back", agent_from_string<AgentT>( row.substr( row.find( ',' ) + 1 ) ), network.agents[i] );
    vf::lemma( "the row reads back", text, expected_file( network ) );
}

void c22_write_simple()
{
    auto network = any_network<SimpleAgent>();
    any_opinions( network, "x" );
    written( network );
}

void c22_write_activity()
{
    auto network = any_network<ActivityAgent>();
    any_agents( network, "x" );
    written( network );
}

void c22_write_inertial()
{
    auto network = any_network<InertialAgent>();
    any_agents( network, "x" );
    written( network );
}

void c22_write_vector()
{
    auto network = any_network<DiscreteVectorAgent>();
    for( size_t i = 0; i < network.n_agents(); i++ )
    {
        network.agents[i].data.opinion.clear();
        vf::assume( vf::size( "dim" ) >= 1 );
        for( size_t j = 0; j < vf::size( "dim" ); j++ )
            network.agents[i].data.opinion.push_back( vf::integer( "opinion", i, j ) );
    }
    written( network );
}

// The columns of the agents in a file: what follows the first comma of each line up to an empty one, comments left out
template<typename AgentT>
std::vector<AgentT> expected_agents( const std::string & text )
{
    std::vector<AgentT> agents;
    size_t start = 0;
    bool last    = false;
    while( !last )
    {
        size_t end       = text.find( '\n', start );
        std::string line = text.substr( start, end - start );
        last             = end == std::string::npos;
        start            = end + 1;
        if( line.empty() )
            break;
        if( line[0] != '#' )
            agents.push_back( agent_from_string<AgentT>( line.substr( line.find( ',' ) + 1 ) ) );
    }
    return agents;
}

void c22_read_simple()
{
    auto agents   = agents_from_file<SimpleAgent>( "simple" );
    auto expected = expected_agents<SimpleAgent>( get_file_contents( "simple" ) );
    vf::same( "as many agents", agents.size(), expected.size() );
    size_t i = vf::pick( "i", expected.size() );
    vf::exactly( "opinion", agents[i].data.opinion, expected[i].data.opinion );
}

void c22_read_activity()
{
    auto agents   = agents_from_file<ActivityAgent>( "activity" );
    auto expected = expected_agents<ActivityAgent>( get_file_contents( "activity" ) );
    vf::same( "as many agents", agents.size(), expected.size() );
    size_t i = vf::pick( "i", expected.size() );
    vf::exactly( "opinion", agents[i].data.opinion, expected[i].data.opinion );
    vf::exactly( "activity", agents[i].data.activity, expected[i].data.activity );
    vf::exactly( "reluctance", agents[i].data.reluctance, expected[i].data.reluctance );
}

void c22_read_inertial()
{
    auto agents   = agents_from_file<InertialAgent>( "inertial" );
    auto expected = expected_agents<InertialAgent>( get_file_contents( "inertial" ) );
    vf::same( "as many agents", agents.size(), expected.size() );
    size_t i = vf::pick( "i", expected.size() );
    vf::exactly( "opinion", agents[i].data.opinion, expected[i].data.opinion );
    vf::exactly( "velocity", agents[i].data.velocity, expected[i].data.velocity );
    vf::exactly( "activity", agents[i].data.activity, expected[i].data.activity );
    vf::exactly( "reluctance", agents[i].data.reluctance, expected[i].data.reluctance );
}

void c22_read_vector()
{
    auto agents   = agents_from_file<DiscreteVectorAgent>( "vector" );
    auto expected = expected_agents<DiscreteVectorAgent>( get_file_contents( "vector" ) );
    vf::same( "as many agents", agents.size(), expected.size() );
    size_t i = vf::pick( "i", expected.size() );
    vf::same( "as many opinions", agents[i].data.opinion.size(), expected[i].data.opinion.size() );
    size_t k = vf::pick( "k", expected[i].data.opinion.size() );
    vf::same( "opinions", agents[i].data.opinion[k], expected[i].data.opinion[k] );
}

// A start file must fit the network
void c22_start_file()
{
    auto nothing  = [] {};
    auto no_model = [] { return std::unique_ptr<Model<SimpleAgent>>(); };
    vf::replace( "Seldon::Simulation::create_network", nothing );
    vf::replace( "Seldon::Simulation::create_model", nothing );
    Config::SimulationOptions options;
    options.model          = Config::Model::DeGroot;
    options.model_settings = Config::DeGrootSettings();
    Simulation<SimpleAgent> simulation( options, std::nullopt, std::nullopt );
    vf::restore( "Seldon::Simulation::create_model" );
    vf::replace( "Seldon::ModelFactory::create_model_degroot", no_model );
    simulation.network = any_network<SimpleAgent>();
    any_opinions( simulation.network, "x" );
    auto expected = agents_from_file<SimpleAgent>( "simple" );
    bool fits     = expected.size() == vf::size( "n" );
    bool thrown   = vf::throws( [&] { simulation.create_model( options, "simple" ); } );
    vf::holds( "a start file with another number of agents is rejected", thrown == !fits );
    vf::same( "the network keeps its size", simulation.network.n_agents(), vf::size( "n" ) );
    size_t i = vf::pick( "i", vf::size( "n" ) );
    vf::assume( !thrown );
    vf::exactly( "the agents are those of the file", simulation.network.agents[i].data.opinion, expected[i].data.opinion );
}
} // namespace spec
