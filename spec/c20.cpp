// C20: the seed alone determines the simulation.
#include "common.hpp"
#include "simulation.hpp"

namespace spec
{
// The generator of a simulation is seeded with the configured seed; network and model draw from it, in this order.
template<typename AgentT, typename OptionsT>
void c20_one_generator( const OptionsT & options )
{
    std::mt19937 reference( options.rng_seed );
    unsigned long first = reference(), second = reference(), third = reference();

    unsigned long network_draw = 0, model_draw = 0;
    auto on_generate = [&]( size_t n_agents, size_t n_connections, bool self_interaction, std::mt19937 & gen )
    {
        network_draw = gen();
        return Network<AgentT>( 3 );
    };
    auto on_model = [&]( Network<AgentT> & network, const ModelFactory::ModelVariantT & settings, std::mt19937 & gen )
    {
        model_draw = gen();
        return std::unique_ptr<Model<AgentT>>();
    };
    vf::replace( "Seldon::NetworkGeneration::generate_n_connections", on_generate );
    vf::replace( "Seldon::ModelFactory::create_model_activity_driven", on_model );
    Simulation<AgentT> simulation( options, std::nullopt, std::nullopt );
    vf::restore( "Seldon::NetworkGeneration::generate_n_connections" );
    vf::restore( "Seldon::ModelFactory::create_model_activity_driven" );
    vf::same( "the network draws first from the seed", network_draw, first );
    vf::same( "the model draws next", model_draw, second );
    vf::same( "the simulation keeps this generator", (unsigned long)simulation.gen(), third );
}

void c20_seed()
{
    Config::SimulationOptions options;
    options.rng_seed                       = vf::integer( "seed" );
    options.model                          = Config::Model::ActivityDrivenModel;
    options.network_settings.n_agents      = vf::size( "n_agents" );
    options.network_settings.n_connections = vf::size( "n_connections" );
    c20_one_generator<ActivityAgent>( options );
}

// A model draws from the generator it is given, the simulation's own
template<typename ModelT>
void same_generator( Config::Model which, auto settings )
{
    Config::SimulationOptions options;
    options.model          = which;
    options.model_settings = settings;
    auto nothing           = [] {};
    vf::replace( "Seldon::Simulation::create_network", nothing );
    vf::replace( "Seldon::Simulation::create_model", nothing );
    Simulation<typename ModelT::AgentT> simulation( options, std::nullopt, std::nullopt );
    vf::restore( "Seldon::Simulation::create_network" );
    vf::restore( "Seldon::Simulation::create_model" );
    simulation.network = any_network<typename ModelT::AgentT>();
    simulation.create_model( options, std::nullopt );
    auto * model = dynamic_cast<ModelT *>( simulation.model.get() );
    vf::holds( "there is a model", model != nullptr );
    vf::holds( "the model draws from the simulation's generator", &model->gen == &simulation.gen );
}

void c20_models()
{
    auto deffuant            = any_deffuant_settings();
    deffuant.use_network     = false;
    auto vector              = deffuant;
    vector.use_binary_vector = true;
    same_generator<DeffuantModel>( Config::Model::DeffuantModel, deffuant );
    same_generator<DeffuantModelVector>( Config::Model::DeffuantModel, vector );
    same_generator<ActivityDrivenModel>( Config::Model::ActivityDrivenModel, any_activity_settings<Config::ActivityDrivenSettings>() );
    same_generator<InertialModel>( Config::Model::ActivityDrivenInertial, any_activity_settings<Config::ActivityDrivenInertialSettings>() );
}
} // namespace spec
