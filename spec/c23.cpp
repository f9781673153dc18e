// C23: network files.
#include "common.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"

namespace spec
{
inline std::string expected_text( Network<SimpleAgent> & network )
{
    std::string text = "# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]\n";
    size_t n         = network.n_agents();
    for( size_t i = 0; i < n; i++ )
    {
        size_t deg = vf::size( "deg", i );
        std::string row = fmt::format( "{:>5}, {:>5}", i, deg );
        row += deg == 0 ? "\n" : ", ";
        for( size_t j = 0; j < deg; j++ )
            row += fmt::format( "{:>5}, ", vf::index( "nb", n, i, j ) );
        for( size_t j = 0; j < deg; j++ )
        {
            row += fmt::format( "{:>25}", vf::real( "w", i, j ) );
            if( j + 1 < deg )
                row += ", ";
            else if( i + 1 < n )
                row += "\n";
        }
        text += row;
    }
    return text;
}

void c23_write()
{
    auto network = any_network<SimpleAgent>();
    size_t n     = vf::size( "n" );
    vf::clear_files();
    network_to_file( network, "network.txt" );
    auto files = vf::files();
    vf::same( "one file", files.size(), size_t( 1 ) );
    vf::holds( "with the given name", files[0].path == "network.txt" );
    vf::same( "its old content gone", files[0].mode, std::string( "out|trunc" ) );
    std::string text     = files[0].content;
    std::string expected = expected_text( network );
    auto lines           = vf::lines( text );
    vf::same( "a header and a row per agent", lines.size(), n + 1 );
    vf::lemma( "a header and a row per agent", text, expected );
    vf::holds( "the header is a comment", lines[0][0] == '#' );
    vf::lemma( "the header is a comment", text, expected );
    size_t i  = vf::pick( "i", n );
    auto row  = vf::entries( lines[i + 1] );
    size_t d  = vf::size( "deg", i );
    size_t j  = vf::pick( "j", d );
    vf::same( "the index comes first", std::stoi( row[0] ), i );
    vf::lemma( "the index comes first", text, expected );
    vf::same( "then the number of neighbours", std::stoi( row[1] ), d );
    vf::lemma( "then the number of neighbours", text, expected );
    vf::same( "one column per neighbour and per weight", row.size(), 2 + 2 * d );
    vf::lemma( "one column per neighbour and per weight", text, expected );
    vf::same( "then the neighbours", std::stoi( row[2 + j] ), vf::index( "nb", n, i, j ) );
    vf::lemma( "then the neighbours", text, expected );
    vf::exactly( "then the weights", std::stod( row[2 + d + j] ), vf::real( "w", i, j ) );
    vf::lemma( "then the weights", text, expected );
}

struct Rows
{
    std::vector<std::vector<size_t>> neighbours;
    std::vector<std::vector<double>> weights;
    bool complete = true;
};

// The rows of a file: index, number of neighbours, neighbours and weights
inline Rows rows( const std::string & text )
{
    Rows res;
    size_t start = 0;
    bool last    = false;
    while( !last )
    {
        size_t end       = text.find( '\n', start );
        std::string line = text.substr( start, end - start );
        last             = end == std::string::npos;
        start            = end + 1;
        if( line.empty() )
            break;
        if( line[0] == '#' )
            continue;
        res.neighbours.emplace_back( 0 );
        res.weights.emplace_back( 0 );
        size_t column = 0, from = 0, n = 0;
        bool row_done = false;
        while( !row_done )
        {
            size_t comma      = line.find( ',', from );
            std::string entry = line.substr( from, comma - from );
            row_done          = comma == std::string::npos;
            from              = comma + 1;
            if( column == 1 )
                n = std::stoi( entry );
            else if( column >= 2 && column < 2 + n )
                res.neighbours.back().push_back( std::stoi( entry ) );
            else if( column >= 2 + n )
                res.weights.back().push_back( std::stod( entry ) );
            column++;
        }
        if( res.neighbours.back().size() != n || res.weights.back().size() != n )
        {
            res.complete = false;
            break;
        }
    }
    for( auto & neighbours : res.neighbours )
        for( auto & j : neighbours )
            if( j >= res.neighbours.size() )
                res.complete = false;
    return res;
}

void c23_reject()
{
    bool thrown = vf::throws( [&] { auto network = NetworkGeneration::generate_from_file<SimpleAgent>( "network" ); } );
    vf::holds( "rejected exactly when a row is incomplete or a neighbour does not exist", thrown == !rows( get_file_contents( "network" ) ).complete );
}

void c23_read()
{
    auto network  = any_network<SimpleAgent>();
    vf::assume( !vf::throws( [&] { network = NetworkGeneration::generate_from_file<SimpleAgent>( "network" ); } ) );
    auto expected = rows( get_file_contents( "network" ) );
    vf::same( "one agent per row", network.n_agents(), expected.neighbours.size() );
    vf::holds( "incoming edges", network.direction() == Network<SimpleAgent>::EdgeDirection::Incoming );
    size_t i = vf::pick( "i", expected.neighbours.size() );
    vf::same( "as many neighbours", network.get_neighbours( i ).size(), expected.neighbours[i].size() );
    vf::same( "as many weights", network.get_weights( i ).size(), expected.weights[i].size() );
    size_t j = vf::pick( "j", expected.neighbours[i].size() );
    vf::same( "the neighbours", network.get_neighbours( i )[j], expected.neighbours[i][j] );
    vf::exactly( "the weights", network.get_weights( i )[j], expected.weights[i][j] );
}
} // namespace spec
