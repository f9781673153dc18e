// C04: the pair interaction of the vector Deffuant model.
#include "common.hpp"
#include "models/DeffuantModel.hpp"

namespace spec
{
void vector_opinion( DiscreteVectorAgent & agent, const char * name )
{
    agent.data.opinion.clear();
    size_t d = vf::size( "d" );
    for( size_t c = 0; c < d; c++ )
    {
        agent.data.opinion.push_back( vf::integer( name, c ) );
    }
}

void c04()
{
    Network<DiscreteVectorAgent> net( vf::size( "n" ) );
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( !settings.use_network );
    DeffuantModelVector model( settings, net, gen );

    DiscreteVectorAgent a, b;
    vector_opinion( a, "a" );
    vector_opinion( b, "b" );
    model.update_rule( a, b );

    size_t d      = vf::size( "d" );
    int distance  = 0;
    for( size_t c = 0; c < d; c++ )
    {
        distance += vf::integer( "a", c ) != vf::integer( "b", c ) ? 1 : 0;
    }
    bool close = distance < vf::real( "threshold" );

    vf::same( "the first agent keeps its dimension", a.data.opinion.size(), d );
    vf::same( "the second agent keeps its dimension", b.data.opinion.size(), d );

    vf::rewind( "g" ); // the reference draws what the model drew
    std::vector<int> first, second;
    for( size_t c = 0; c < d; c++ )
    {
        int x = vf::integer( "a", c );
        int y = vf::integer( "b", c );
        if( close && x != y )
        {
            int coin = std::uniform_int_distribution<>( 0, 1 )( gen );
            double u = std::uniform_real_distribution<>( 0, 1 )( gen );
            if( coin == 0 && u > vf::real( "mu" ) )
            {
                x = y;
            }
            else
            {
                y = x;
            }
        }
        first.push_back( x );
        second.push_back( y );
    }
    size_t c = vf::pick( "c", d );
    vf::same( "component of the first agent", a.data.opinion[c], first[c] );
    vf::same( "component of the second agent", b.data.opinion[c], second[c] );
    bool differ = vf::integer( "a", c ) != vf::integer( "b", c );
    vf::holds( "a differing component becomes equal", !( close && differ ) || a.data.opinion[c] == b.data.opinion[c] );
    vf::holds(
        "an agreeing component, or any component of distant agents, stays",
        ( close && differ )
            || ( a.data.opinion[c] == vf::integer( "a", c ) && b.data.opinion[c] == vf::integer( "b", c ) ) );
}

void c04_dimensions()
{
    Network<DiscreteVectorAgent> net( vf::size( "n" ) );
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( !settings.use_network );
    DeffuantModelVector model( settings, net, gen );
    DiscreteVectorAgent a, b;
    for( size_t c = 0; c < vf::size( "d" ); c++ )
    {
        a.data.opinion.push_back( vf::integer( "a", c ) );
    }
    for( size_t c = 0; c < vf::size( "e" ); c++ )
    {
        b.data.opinion.push_back( vf::integer( "b", c ) );
    }
    bool thrown = vf::throws( [&] { model.update_rule( a, b ); } );
    vf::holds( "agents of different dimensions are rejected", thrown == ( vf::size( "d" ) != vf::size( "e" ) ) );
}
} // namespace spec
