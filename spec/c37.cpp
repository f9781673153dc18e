// C37: dot files.
#include "common.hpp"
#include "network_io.hpp"

namespace spec
{
inline std::string expected_graph()
{
    std::string text = "digraph G {\n";
    size_t n         = vf::size( "n" );
    for( size_t i = 0; i < n; i++ )
    {
        size_t deg = vf::size( "deg", i );
        text += fmt::format( "{} <- {{", i );
        for( size_t j = 0; j + 1 < deg; j++ )
            text += fmt::format( "{}, ", vf::index( "nb", n, i, j ) );
        if( deg > 0 )
            text += fmt::format( "{}", vf::index( "nb", n, i, deg - 1 ) );
        text += "}\n";
    }
    text += "}\n";
    return text;
}

void c37()
{
    auto network = any_network<SimpleAgent>();
    size_t n     = vf::size( "n" );
    vf::clear_files();
    network_to_dot_file( network, "network.dot" );
    auto files = vf::files();
    vf::same( "one file", files.size(), size_t( 1 ) );
    vf::holds( "with the given name", files[0].path == "network.dot" );
    vf::same( "its old content gone", files[0].mode, std::string( "out|trunc" ) );
    std::string text     = files[0].content;
    std::string expected = expected_graph();
    auto lines           = vf::lines( text );
    vf::same( "a line per agent between the braces", lines.size(), n + 2 );
    vf::lemma( "a line per agent between the braces", text, expected );
    vf::holds( "the graph is opened", lines[0].find( "digraph" ) == 0 && lines[0].find( '{' ) != std::string::npos );
    vf::lemma( "the graph is opened", text, expected );
    vf::holds( "the graph is closed", lines[n + 1].find( '}' ) != std::string::npos );
    vf::lemma( "the graph is closed", text, expected );
    size_t i = vf::pick( "i", n );
    size_t d = vf::size( "deg", i );
    size_t j = vf::pick( "j", d );
    auto line    = lines[i + 1];
    size_t start = line.find( '{' ) + 1;
    vf::same( "the agent comes first", std::stoi( line ), i );
    vf::lemma( "the agent comes first", text, expected );
    vf::holds( "then an arrow towards it", line.find( "<-" ) != std::string::npos );
    vf::lemma( "then an arrow towards it", text, expected );
    vf::holds( "its line is closed", line.find( '}' ) + 1 == line.size() );
    vf::lemma( "its line is closed", text, expected );
    auto neighbours = vf::entries( line.substr( start, line.find( '}' ) - start ) );
    vf::same( "as many entries as neighbours", neighbours.size(), d == 0 ? size_t( 1 ) : d );
    vf::lemma( "as many entries as neighbours", text, expected );
    vf::same( "each neighbour in its place", std::stoi( neighbours[j] ), vf::index( "nb", n, i, j ) );
    vf::lemma( "each neighbour in its place", text, expected );
}
} // namespace spec
