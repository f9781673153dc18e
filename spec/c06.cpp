// C06: one activity-driven iteration is one classical Runge-Kutta step.
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"

namespace spec
{
// slopes of the opinions y, over the rows of any_contacts()
inline std::vector<double> slopes( const std::vector<double> & y )
{
    std::vector<double> k;
    size_t n = vf::size( "n" );
    for( size_t i = 0; i < n; i++ )
    {
        double sum = 0;
        for( size_t j = 0; j < vf::size( "deg2", i ); j++ )
        {
            sum += vf::real( "w2", i, j ) * std::tanh( vf::real( "alpha" ) * y[vf::index( "nb2", n, i, j )] );
        }
        k.push_back( -y[i] + vf::real( "K" ) / vf::real( "reluctance", i ) * sum );
    }
    return k;
}

inline std::vector<double> ahead( const char * x, double h, const std::vector<double> & k )
{
    std::vector<double> y;
    for( size_t i = 0; i < vf::size( "n" ); i++ )
    {
        y.push_back( vf::real( x, i ) + h * k[i] );
    }
    return y;
}

template<typename AgentT>
void only_opinions_changed( Network<AgentT> & net )
{
    size_t i = vf::pick( "i", vf::size( "n" ) );
    size_t j = vf::pick( "j", vf::size( "deg2", i ) );
    vf::same( "the number of agents stays", net.n_agents(), vf::size( "n" ) );
    vf::same( "activities stay", net.agents[i].data.activity, vf::real( "activity", i ) );
    vf::same( "reluctances stay", net.agents[i].data.reluctance, vf::real( "reluctance", i ) );
    vf::same( "the number of neighbours stays", net.get_neighbours( i ).size(), vf::size( "deg2", i ) );
    vf::same( "the number of weights stays", net.get_weights( i ).size(), vf::size( "deg2", i ) );
    vf::same( "neighbours stay", net.get_neighbours( i )[j], vf::index( "nb2", vf::size( "n" ), i, j ) );
    vf::same( "weights stay", net.get_weights( i )[j], vf::real( "w2", i, j ) );
}

void c06()
{
    auto net = any_network<ActivityAgent>();
    auto gen = vf::generator( "g" );
    ActivityDrivenModel model( any_activity_settings<Config::ActivityDrivenSettings>(), net, gen );
    any_contacts( net );
    any_agents( net, "x" );
    model.iteration(); // an earlier iteration: what it leaves behind must not matter
    any_agents( net, "y" );
    model.iteration();

    size_t n = vf::size( "n" );
    double h = vf::real( "dt" );
    std::vector<double> zero( n, 0.0 );
    auto k1 = slopes( ahead( "y", 0.0, zero ) );
    auto k2 = slopes( ahead( "y", h / 2, k1 ) );
    auto k3 = slopes( ahead( "y", h / 2, k2 ) );
    auto k4 = slopes( ahead( "y", h, k3 ) );

    size_t i    = vf::pick( "i", n );
    double next = vf::real( "y", i ) + h / 6 * ( k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i] );
    if( i < vf::size( "n_bots" ) )
    {
        next = vf::real( "bot_opinion", i );
    }
    vf::same( "the opinion after an iteration", net.agents[i].data.opinion, next );
    only_opinions_changed( net );
}
} // namespace spec
