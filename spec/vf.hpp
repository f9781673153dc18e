// The harness language.  These declarations have no meaning of their own: the files in this folder are only ever parsed, and the
// analysis gives the names their meaning (inputs are arbitrary values; same() states a proof obligation).
#pragma once
#include <cstddef>
#include <optional>
#include <random>
#include <string>
#include <vector>

namespace vf
{
// arbitrary inputs, one per name and index
double real( const char * name );
double real( const char * name, size_t i );
double real( const char * name, size_t i, size_t j );
size_t size( const char * name );
size_t size( const char * name, size_t i );
size_t size( const char * name, size_t i, size_t j );
int integer( const char * name );
int integer( const char * name, size_t i );
int integer( const char * name, size_t i, size_t j );
bool boolean( const char * name );
bool boolean( const char * name, size_t i );
bool boolean( const char * name, size_t i, size_t j );
size_t index( const char * name, size_t bound, size_t i );           // < bound
size_t index( const char * name, size_t bound, size_t i, size_t j ); // < bound
std::string text( const char * name );
// an arbitrary position below n
size_t pick( const char * name, size_t n );
std::mt19937 generator( const char * name );
// from here on the draws made since mark() (or since the start) are drawn once more, for the reference
void mark( const char * name );
void rewind( const char * name );
// obligations
void same( const char * label, double a, double b );
void same( const char * label, const std::string & a, const std::string & b );
// the same to the last digit, where values are compared
void exactly( const char * label, double a, double b );
void holds( const char * label, bool c );
// the obligation of the same label follows when each of its lemmas is discharged; a lemma alone is never reported
void lemma( const char * label, double a, double b );
void lemma( const char * label, const std::string & a, const std::string & b );
// the lines of a text, as std::getline reads them; and what is between its commas
std::vector<std::string> lines( const std::string & text );
std::vector<std::string> entries( const std::string & text );
void assume( bool c );
template<typename F>
bool throws( F )
{
    return false;
}
// calls of the named function run f instead, until restored (what f leaves out is shown separately)
template<typename F>
void replace( const char *, F )
{
}
// the same for the calls it makes to itself
template<typename F>
void replace_within( const char *, F )
{
}
void restore( const char * function );
// the program, with arbitrary arguments; its exit status
int run_program();
// what the user gave for an argument of the program
std::optional<std::string> argument( const char * name );
// the files written so far, in order
struct File
{
    std::string path, mode, content;
};
const std::vector<File> & files();
void clear_files();
// what was printed since clear_printed()
std::string printed();
void clear_printed();
} // namespace vf
