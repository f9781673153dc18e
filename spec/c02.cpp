// C02: the iteration counter and the stopping rule.
#include "common.hpp"
#include "models/ActivityDrivenModel.hpp"
#include "models/DeGroot.hpp"
#include "models/DeffuantModel.hpp"
#include "models/InertialModel.hpp"

namespace spec
{
bool capped( size_t iterations )
{
    return vf::boolean( "has_max" ) && vf::size( "max" ) <= iterations;
}

// k earlier iterations (of the base class: they count the same), then one of the model's own
template<typename AgentT, typename ModelT>
void counter( ModelT & model )
{
    Model<AgentT> & base = model;
    vf::same( "a new model has done no iteration", base.n_iterations(), 0 );
    vf::holds( "a new model stops at once only for a cap of zero", base.finished() == capped( 0 ) );
    size_t k = vf::size( "k" );
    for( size_t i = 0; i < k; i++ )
    {
        base.Model<AgentT>::iteration();
    }
    base.iteration();
    vf::same( "every iteration counts once", base.n_iterations(), k + 1 );
    vf::holds( "the cap alone, as the base class sees it", base.Model<AgentT>::finished() == capped( k + 1 ) );
}

template<typename AgentT, typename ModelT>
void restart( ModelT & model )
{
    Model<AgentT> & base = model;
    base.initialize_iterations();
    vf::same( "initialisation resets the counter", base.n_iterations(), 0 );
    base.iteration();
    vf::same( "and counting starts again", base.n_iterations(), 1 );
}

void c02_degroot()
{
    auto net = any_network<SimpleAgent>();
    Config::DeGrootSettings settings;
    settings.max_iterations  = any_max();
    settings.convergence_tol = vf::real( "tol" );
    DeGrootModel model( settings, net );
    counter<SimpleAgent>( model );

    any_opinions( net, "y" );
    model.iteration();

    double change = 0;
    for( size_t i = 0; i < vf::size( "n" ); i++ )
    {
        double sum = 0;
        for( size_t j = 0; j < vf::size( "deg", i ); j++ )
        {
            sum += vf::real( "w", i, j ) * vf::real( "y", vf::index( "nb", vf::size( "n" ), i, j ) );
        }
        double d = vf::real( "y", i ) - sum;
        if( d < 0 )
        {
            d = -d;
        }
        if( d > change )
        {
            change = d;
        }
    }
    Model<SimpleAgent> & base = model;
    vf::holds(
        "DeGroot stops at the cap or when the last change is below the tolerance",
        base.finished() == ( capped( vf::size( "k" ) + 2 ) || change < vf::real( "tol" ) ) );
    restart<SimpleAgent>( model );
}

void c02_deffuant()
{
    auto net      = any_network<SimpleAgent>();
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( !settings.use_network );
    DeffuantModel model( settings, net, gen );
    counter<SimpleAgent>( model );
    Model<SimpleAgent> & base = model;
    vf::holds( "stops at the cap and for no other reason", base.finished() == capped( vf::size( "k" ) + 1 ) );
    restart<SimpleAgent>( model );
}

void c02_deffuant_vector()
{
    auto net      = any_network<DiscreteVectorAgent>();
    auto gen      = vf::generator( "g" );
    auto settings = any_deffuant_settings();
    vf::assume( !settings.use_network );
    DeffuantModelVector model( settings, net, gen );
    counter<DiscreteVectorAgent>( model );
    Model<DiscreteVectorAgent> & base = model;
    vf::holds( "stops at the cap and for no other reason", base.finished() == capped( vf::size( "k" ) + 1 ) );
    restart<DiscreteVectorAgent>( model );
}

void c02_activity()
{
    auto net = any_network<ActivityAgent>();
    auto gen = vf::generator( "g" );
    ActivityDrivenModel model( any_activity_settings<Config::ActivityDrivenSettings>(), net, gen );
    any_contacts( net );
    any_agents( net, "x" );
    counter<ActivityAgent>( model );
    Model<ActivityAgent> & base = model;
    vf::holds( "stops at the cap and for no other reason", base.finished() == capped( vf::size( "k" ) + 1 ) );
    any_agents( net, "y" );
    restart<ActivityAgent>( model );
}

void c02_inertial()
{
    auto net = any_network<InertialAgent>();
    auto gen = vf::generator( "g" );
    InertialModel model( any_activity_settings<Config::ActivityDrivenInertialSettings>(), net, gen );
    any_contacts( net );
    any_agents( net, "x" );
    counter<InertialAgent>( model );
    Model<InertialAgent> & base = model;
    vf::holds( "stops at the cap and for no other reason", base.finished() == capped( vf::size( "k" ) + 1 ) );
    any_agents( net, "y" );
    restart<InertialAgent>( model );
}
} // namespace spec
