"""Writes properties.jsonl (kept as code so that long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None)))

p('C01', 'Hand-written derivatives are the true derivatives of the computed outputs',
  'For every component of the tool that supplies its own analytic derivatives, every derivative it reports equals the mathematical derivative of the output it actually computes, for all inputs in the interior of a formula branch and for every supported configuration. A derivative that is not reported at all (an output/input pair or a sparsity entry left out) is one that is identically zero.',
  ['inputs', 'configurations'],
  'all real input values in the interior of every reachable formula branch; all option settings (enumerated where finite, symbolic where numeric)',
  'check_partials tests sample one point, usually inside one branch and one option setting, and many components are only checked at the default values; a wrong derivative in another branch silently misleads the optimizer.',
  ['aviary/subsystems', 'aviary/mission', 'aviary/utils/math.py'],
  [('compute / compute_partials pairs', 'every ExplicitComponent under aviary/subsystems and aviary/mission'), ('declare_partials sparsity', 'setup / setup_partials')],
  observe=['partials returned by compute_partials / linearize vs derivative of compute / apply_nonlinear'])

p('C02', 'Component results depend only on current inputs and options, never on history',
  'Evaluating a component (its outputs, residuals or derivatives) gives a result determined only by the current inputs and options: every output and every derivative entry that the component may write is written on every evaluation, and no value left over from an earlier evaluation is read (derivatives are evaluated at the point where the outputs were evaluated last). Evaluation never modifies the inputs it was given.',
  ['inputs', 'histories', 'configurations'],
  'all sequences of evaluations of one component instance, over all inputs and option settings',
  'A test evaluates a fresh component once; a stale derivative or output only shows when a later evaluation takes a different branch than an earlier one.',
  ['aviary/subsystems', 'aviary/mission', 'aviary/utils/math.py'],
  [('compute / compute_partials / apply_nonlinear / linearize bodies', 'all components')],
  observe=['outputs, partials and inputs vectors after evaluation'])

p('C03', 'Flight-condition nodes are evaluated independently and identically',
  'A mission-analysis component evaluated on a vector of nodes gives at each node what the same component would give for that node alone: the result at one node depends only on inputs at that node (and on scalar inputs), and the same formula is applied at every node. Excluded are the outputs that are cumulative along the phase by definition (cruise range, time and distance).',
  ['inputs', 'configurations'],
  'all node counts, all per-node input values, including nodes that fall in different formula branches',
  'Tests use one or two nodes with benign, usually equal values; cross-talk between nodes in different branches is never sampled.',
  ['aviary/mission', 'aviary/subsystems/aerodynamics', 'aviary/subsystems/atmosphere', 'aviary/subsystems/propulsion'],
  [('vectorised compute bodies', 'components that take a number of nodes')],
  observe=['outputs at node i'])
p('C04', 'Every mass, drag and performance scaler is a true multiplier of the quantity it scales',
  'Doubling a user scaler `X_scaler` (for example aircraft:wing:mass_scaler or a per-engine-type scaler) exactly doubles X as computed by the component that owns it, element by element for vector-valued quantities: the value for one engine type is not influenced by the scaler of another type. Exceptions are the coefficients documented not to be multipliers (FLOPS engine mass scaling exponent, GASP furnishings coefficient and pod mass scaler).',
  ['inputs', 'configurations'],
  'all input values of every formula branch, all options, all engine type layouts of the listed configurations',
  'Tests compare one value at one scaler setting (usually 1.0), where a scaler that is dropped, squared or applied to only a part of the result is invisible.',
  ['aviary/subsystems/mass', 'aviary/subsystems/geometry', 'aviary/subsystems/aerodynamics', 'aviary/subsystems/propulsion'],
  [('compute bodies of components with a `*_scaler` input', 'aviary/subsystems/**')],
  observe=['outputs X against inputs X_scaler'])

p('C05', 'Mass roll-ups conserve mass',
  'Wherever component masses are combined, the total is exactly the sum of its parts, each counted once (per engine type: number of engines times the mass of one engine), plus exactly the documented margins: structure, propulsion, systems and equipment, empty, operating, zero-fuel, payload, fuel and useful-load totals, landing gear main plus nose, landing mass as fraction of gross mass, fuel capacity totals, and weight = mass times the unit-consistent gravity factor.',
  ['inputs', 'configurations'],
  'all component masses, all engine-type layouts and options that select which parts belong to the total',
  'Tests sum one data set in which many parts are zero; a part that is dropped, doubled or counted for the wrong number of engines in another configuration does not show.',
  ['aviary/subsystems/mass'],
  [('summation components', 'aviary/subsystems/mass/flops_based/mass_summation.py; aviary/subsystems/mass/gasp_based/{fixed,fuel,wing,engine,control}.py'),
   ('engine roll-ups', 'aviary/subsystems/mass/flops_based/{engine,engine_pod,misc_engine,thrust_reverser}.py')],
  observe=['total mass outputs against the part inputs'])

p('C06', 'Propulsion totals, throttle allocation and engine scaling are consistent',
  'Vehicle thrust, maximum thrust, fuel flow, electric power and NOx are the sum over engine types of (number of engines) times the value of one engine; throttle allocations of all engine types add up to the aggregate throttle; a scaled engine delivers the reference value times its scale factor with the documented fuel-flow corrections (intensive quantities unscaled); and propeller, gearbox and motor components satisfy their defining power, torque, speed and tip-speed relations (advance ratio, power coefficient, efficiency, density ratio, torque times speed = power).',
  ['inputs', 'configurations'],
  'all inputs at all nodes, all engine-type layouts and engine variable selections',
  'Tests use one or two engine types with a few flight conditions; mixes of engine counts, regimes and selections of engine variables are not sampled.',
  ['aviary/subsystems/propulsion'],
  [('PropulsionSum', 'aviary/subsystems/propulsion/propulsion_mission.py'), ('ThrottleAllocator', 'aviary/subsystems/propulsion/throttle_allocation.py'),
   ('EngineScaling', 'aviary/subsystems/propulsion/engine_scaling.py'), ('propeller / motor / gearbox components', 'aviary/subsystems/propulsion/**')],
  observe=['component outputs'])

p('C07', 'Equations of motion conserve momentum and energy and agree with the path kinematics',
  'Every equations-of-motion component turns forces into rates by Newton\'s law projected along and across the flight path (thrust at its incidence, drag, lift, weight, runway friction on the remaining normal force), splits speed into climb and ground speed by the flight path angle, keeps specific energy consistent between climb and acceleration, derives stall and reference speeds from lift at the maximum lift coefficient carrying the weight, and adds up ground, glide, transition and delay distances, taxi fuel and take-off fuel, and cruise range and time interval by interval.',
  ['inputs', 'configurations'],
  'all states, forces and angles, all option settings (ground roll, rotation, climbing), any gravity option',
  'Tests compare with stored values at one or two states, where many terms vanish (zero incidence, zero path angle, equal nodes); a wrong sign or a lost term elsewhere biases every optimised trajectory.',
  ['aviary/mission/two_dof/ode', 'aviary/mission/solved_two_dof/ode', 'aviary/mission/energy_state', 'aviary/mission/ode'],
  [('EOM components', 'aviary/mission/**/ode/*eom*.py, range_rate.py, required_thrust.py, specific_energy_rate.py, altitude_rate.py, v_rotate_comp.py, gamma_comp.py, constraints/*.py'),
   ('simplified take-off and landing', 'aviary/mission/energy_state/phases/simplified_{takeoff,landing}.py')],
  observe=['rates, forces, speeds and distances computed by the components'])

p('C08', 'Aerodynamic coefficients and forces follow their defining relations in every regime',
  'Lift and drag are dynamic pressure times reference area times their coefficients, and lift-required computations invert exactly that; dynamic pressure is gamma/2 p M^2 = rho V^2/2; coefficient build-ups (FLOPS and GASP) add each documented contribution once - Mach-regime drag factors apply to their own regime, induced drag is quadratic in lift over the effective aspect ratio, skin friction is per wetted area with excrescence, ground effect vanishes away from the ground, flap and gear increments interpolate from retracted to fully deployed - stall angle is where the lift curve reaches maximum lift, and geometric ratios feeding them are the stated ratios.',
  ['inputs', 'configurations'],
  'all flight conditions, coefficients, regimes and option settings',
  'Tests compare with stored values at a few points, usually one Mach regime, clean configuration and zero increments; a contribution that is lost, doubled or applied in the wrong regime elsewhere is not seen.',
  ['aviary/subsystems/aerodynamics'],
  [('FLOPS based aerodynamics', 'aviary/subsystems/aerodynamics/flops_based/{lift,drag,induced_drag,ground_effect,skin_friction_drag,mux_component}.py'),
   ('GASP based aerodynamics', 'aviary/subsystems/aerodynamics/gasp_based/{gaspaero,common,interference,gasp_aero_coeffs,flaps_model/*}.py')],
  observe=['lift, drag and coefficient outputs'])

p('C09', 'Sizing geometry is dimensionally and geometrically consistent',
  'Quantities computed by the geometry subsystem agree with each other and with the shapes they describe: aspect ratio is span^2 over area, trapezoid areas, chords and mean aerodynamic chords belong to the same planform, tail volumes, areas, spans and arms satisfy their volume coefficients, wetted areas are scaler times surface factor times exposed area and add up to the total, engine-type quantities use that type\'s own count and thrust ratio, strut, fold and cabin relations close, and characteristic lengths and fineness ratios are those of the body they name.',
  ['inputs', 'configurations'],
  'all dimensions, all configurations (folding, strut-braced, blended wing body, tail and engine counts)',
  'Tests check stored numbers for a few aircraft; a relation that breaks only with a fold, a canard, another tail count or several engine types goes unnoticed.',
  ['aviary/subsystems/geometry'],
  [('FLOPS based geometry', 'aviary/subsystems/geometry/flops_based/*.py'), ('GASP based geometry', 'aviary/subsystems/geometry/gasp_based/*.py')],
  observe=['geometry outputs'])

p('C10', 'Atmospheric state and airspeeds are physically consistent at every altitude',
  'At any altitude, for every atmosphere model, the atmosphere subsystem gives one consistent state: temperature offset shifts temperature only, pressure is unaffected and density follows the ideal gas law, speed of sound is sqrt(gamma R T) and viscosity follows Sutherland\'s law for the planet concerned; the tabulated properties are positive, continuous and smooth in altitude, pressure never rises with altitude and the temperature slope table is the slope of the temperature table. Airspeeds are one speed in three measures: Mach times speed of sound is true airspeed, equivalent airspeed gives the same dynamic pressure at sea-level density, dynamic pressure is rho V^2/2, and the acceleration belonging to a speed schedule follows from the chain rule along the flight path.',
  ['inputs', 'configurations'],
  'all altitudes inside the tables, all atmosphere models, temperature offsets, speeds and speed types',
  'Tests look up a handful of altitudes; an error in one of thousands of table entries, in a speed-type branch or with a temperature offset is not sampled.',
  ['aviary/subsystems/atmosphere', 'aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py'],
  [('AtmosphereComp', 'aviary/subsystems/atmosphere/atmosphere.py'), ('tables', 'aviary/subsystems/atmosphere/data/*.py'),
   ('get_atmosphere_data', 'aviary/subsystems/atmosphere/utils/get_atmosphere_data.py'), ('FlightConditions', 'aviary/subsystems/atmosphere/flight_conditions.py')],
  observe=['atmosphere and speed outputs'])
p('C11', 'A variable read back from a values container is the value that was put in, in whatever unit it is asked for',
  'NamedValues and AviaryValues are a map from variable names to (value, unit): what is set is what is got, for every container shape and type the metadata allows; asking in another unit returns the converted value without changing what is stored; setting, deleting, updating from another collection, copying and clearing affect exactly the named entries and a copy is independent of its original; a rejected value (wrong type, incompatible or missing unit, unknown enumeration name) raises and leaves the collection as it was; enumeration names, integers given as floats and booleans arrive as what the metadata says.',
  ['inputs', 'histories', 'configurations'],
  'all values, units, container shapes up to three entries and one level of nesting, all variables of the metadata by type',
  'Tests set a few variables to a few values; conversion of integer arrays, nested lists, aliasing of copies and atomicity of a rejected update are not sampled.',
  ['aviary/utils/named_values.py', 'aviary/utils/aviary_values.py', 'aviary/utils/utils.py'],
  [('NamedValues', 'aviary/utils/named_values.py'), ('AviaryValues', 'aviary/utils/aviary_values.py'), ('cast_type, check_type, enum_setter', 'aviary/utils/utils.py')],
  observe=['values and units returned by get_val / get_item / items', 'exceptions'])
p('C12', 'Preprocessing completes the options of a vehicle without contradicting what the user gave',
  'After preprocessing, the options are consistent and complete: passenger counts per class add up to the total, design and as-flown counts are both present, crew and baggage counts follow the published rules from the passenger count when not given, cargo totals and mass limits agree, fuel capacities that contradict each other are rejected; every engine option becomes one entry per engine type, taken from the engine, else from the vehicle, else from the default, in the unit of the metadata; the engine counts of every type satisfy engines = wing + fuselage and the vehicle totals are their sums; whatever the user gave consistently is kept, and preprocessing twice gives the same as preprocessing once.',
  ['inputs', 'configurations'],
  'all counts and masses, all subsets of given options, one to three engine types, all units, both mass methods',
  'Tests exercise a few subsets of given options; there are 2^8 subsets of passenger inputs and as many orderings of partially specified engines.',
  ['aviary/utils/preprocessors.py', 'aviary/subsystems/propulsion/engine_model.py'],
  [('preprocess_options, preprocess_crewpayload, preprocess_fuel_capacities, preprocess_propulsion', 'aviary/utils/preprocessors.py'), ('EngineModel._preprocess_inputs', 'aviary/subsystems/propulsion/engine_model.py')],
  observe=['the AviaryValues after preprocessing', 'exceptions'])
p('C13', 'The variable hierarchy and its metadata are one consistent catalogue that can be extended and merged without loss',
  'Every variable of the hierarchy has exactly one metadata entry and vice versa; every entry is well formed: known units, a default that its own type check accepts, a description; adding or updating an entry changes exactly that entry and rejects a duplicate, respectively an unknown, name; merging metadata dictionaries or hierarchies gives exactly the union, rejects contradicting entries, and leaves the dictionaries and hierarchies it was given unchanged.',
  ['inputs', 'configurations'],
  'every metadata entry and hierarchy attribute; all default values of merged entries; merges of up to three parties with nested classes',
  'The catalogue has 640 entries and grows with every feature; merging is tested on a handful of hand-written hierarchies.',
  ['aviary/variable_info/variable_meta_data.py', 'aviary/variable_info/variables.py', 'aviary/utils/develop_metadata.py', 'aviary/utils/merge_variable_metadata.py', 'aviary/utils/merge_hierarchies.py', 'aviary/utils/compare_hierarchies.py'],
  [('add_meta_data, update_meta_data', 'aviary/utils/develop_metadata.py'), ('merge_meta_data', 'aviary/utils/merge_variable_metadata.py'), ('merge_hierarchies', 'aviary/utils/merge_hierarchies.py')],
  observe=['the metadata dictionaries and hierarchy classes', 'exceptions'])
p('C14', 'The smoothing functions are the documented functions of their arguments, and their derivative functions are their derivatives',
  'sigmoidX is the logistic function 1/(1+exp(-(x-x0)/mu)) of any centre and non-zero steepness (0 where the exponential would overflow), symmetric about its centre; smooth_min and smooth_max are the log-sum-exp of their two arguments: beyond both, by at most ln(2)/mu, symmetric and finite for every finite argument; the smooth integer functions follow their formulas and keep whole numbers; dSigmoidXdx, d_smooth_min, d_smooth_max (in either argument), dydx_sin_int, dydx_sin_int4 and d_smooth_int_tanh are exactly the derivatives of these values. All act entry by entry on scalars and arrays of any combination of shapes, and a zero steepness is rejected.',
  ['inputs'],
  'all real arguments and smoothing parameters; scalars and arrays, scalar or array centres',
  'Tests sample a few points near the transition with one smoothing parameter.',
  ['aviary/utils/math.py'],
  [('sigmoidX, dSigmoidXdx, smooth_max, smooth_min, d_smooth_max, d_smooth_min, sin_int4, dydx_sin_int4, smooth_int_tanh, d_smooth_int_tanh', 'aviary/utils/math.py')],
  observe=['returned values'])
p('C15', 'What is written to a file is what is read back',
  'Data tables, vehicle decks, csv exports and sizing results survive the exchange through a file: every number, unit, text, boolean, enumeration entry, list, column label and comment comes back under its name with the value and units it had; each cell belongs to the column above it and each deck line to its own variable, in any permitted spelling (separators, blanks, comments, trailing commas, aliases, number notations, default units); files that contradict their header or the metadata are rejected rather than misread; and neither writing nor reading changes the data it was given.',
  ['inputs', 'configurations'],
  'all numbers, every metadata variable with its types and units, tables of up to three columns and rows in every spelling listed',
  'Round trips are tested for a few files; the space of variables, units, number notations and layouts is not sampled.',
  ['aviary/utils/csv_data_file.py', 'aviary/utils/process_input_decks.py', 'aviary/utils/functions.py', 'aviary/utils/aviary_inputs_to_csv.py', 'aviary/core/aviary_problem.py'],
  [('read_data_file, write_data_file', 'aviary/utils/csv_data_file.py'), ('parse_inputs, create_vehicle', 'aviary/utils/process_input_decks.py'), ('convert_strings_to_data', 'aviary/utils/functions.py'),
   ('save_to_csv_file', 'aviary/utils/aviary_inputs_to_csv.py'), ('AviaryProblem.save_results, _read_sizing_json', 'aviary/core/aviary_problem.py')],
  observe=['file contents', 'returned collections', 'exceptions'])
p('C16', 'An engine deck becomes the engine it describes',
  'Building an EngineDeck from a table of engine data yields exactly the data points of that table: in working units, whatever the order of its rows, the units or the spelling of its columns; sorted by Mach number and altitude in the requested order; throttles normalised to 0..1 over the whole deck or over each flight condition as requested; with generated flight idle, exactly one idle point per flight condition, extrapolated along that condition and bounded as documented; thrust computed from gross thrust and ram drag and negative thrust dropped where requested; thrust scaled to the required reference thrust and scale factor and reference thrust consistent; outputs per engine of the model interpolate exactly these points. Decks without required variables or with contradictory columns are rejected.',
  ['inputs', 'configurations'],
  'all engine data on the grids enumerated (one to three Mach numbers and altitudes, one to three throttle points, equal or different per flight condition), every sort order, normalisation, idle and thrust option',
  'Tests read a handful of deck files and compare some points; grids with different numbers of points, row orders, units and option combinations are not sampled.',
  ['aviary/subsystems/propulsion/engine_deck.py'],
  [('EngineDeck._read_data, _check_data, _normalize_throttle, _generate_flight_idle, _sort_data, _pack_data, _count_data, _set_reference_thrust, build_mission', 'aviary/subsystems/propulsion/engine_deck.py')],
  observe=['EngineDeck.data', 'options of the engine', 'training data of the mission model', 'exceptions'])
p('C17', 'Data given for the aircraft reaches the models, converted and without loss',
  'Declaring a variable of the hierarchy as input, output or option of a component uses the name, default, units, shape and description of the metadata unless overridden, with a size of one entry per engine type where asked; unknown names and incompatible units are refused. Values collected for the aircraft arrive at the model inputs and options under the same name with their own units, or converted where the option has units; nothing given is dropped and nothing not given is invented. A variable that the user gives overrides what a subsystem would compute for it (the computed output is renamed, the value given feeds every reader), in groups of any depth, and variables not given keep their computed source. Trajectory parameters are set up once for every phase that uses them, with the value and units of the data, whatever the number of phases and external subsystems, and the default of a variable that several engine types share has one entry per type.',
  ['inputs', 'configurations'],
  'all values and every metadata variable, one to three engine types, groups two levels deep, one to three phases, up to two external parameters',
  'Tests build a few aircraft; whether every variable of every kind arrives with its units and in every phase is not sampled.',
  ['aviary/variable_info/functions.py', 'aviary/utils/functions.py', 'aviary/utils/aviary_options_dict.py'],
  [('add_aviary_input, add_aviary_output, add_aviary_option, override_aviary_vars, setup_trajectory_params, extract_options, setup_model_options', 'aviary/variable_info/functions.py'),
   ('set_aviary_initial_values, set_aviary_input_defaults', 'aviary/utils/functions.py'), ('units_setter', 'aviary/utils/aviary_options_dict.py')],
  observe=['declared variables and options', 'promotions', 'values set on the problem', 'parameters added to the trajectory', 'exceptions'])
p('C18', 'Each analysis in the assembled model reads the value it should',
  'In the model built for an aircraft and a mission, every input that names aircraft or mission data reads that datum: the value the subsystem responsible computes, or the value given by the user, which then replaces the computed one for every reader; values are computed before they are read; flight conditions read by an analysis within a phase are those of that phase and instant, and takeoff and landing data are used in their own phases; analyses of one engine type read the entry of that engine type; and every component option carries the value given for the aircraft.',
  ['inputs', 'configurations'],
  'all combinations of mass, geometry and aerodynamics method, equations of motion, engine and structural options that the code can assemble',
  'A wrong connection leaves a model that runs and looks plausible; tests compare the results of a few assembled aircraft, most of which leave the datum at its default.',
  ['aviary/core/aviary_group.py', 'aviary/core/static_group.py', 'aviary/subsystems/premission.py', 'aviary/subsystems/aerodynamics/aerodynamics_builder.py', 'aviary/subsystems/propulsion/propulsion_premission.py', 'aviary/subsystems/propulsion/propulsion_mission.py', 'aviary/mission/two_dof', 'aviary/mission/energy_state', 'aviary/subsystems/mass'],
  [('AviaryGroup.add_pre_mission_systems, configure', 'aviary/core/aviary_group.py'), ('get_parameters, mission_inputs', 'aviary/subsystems/aerodynamics/aerodynamics_builder.py'),
   ('PropulsionMission.setup', 'aviary/subsystems/propulsion/propulsion_mission.py'), ('setup of the phase ODEs', 'aviary/mission')],
  observe=['connections of the model', 'order of execution', 'option values of the components'])
p('C19', 'Fuel, mass, power and force balances close over groups of analyses',
  'Fuel burned in the mission is the gross mass less the mass at the end of the last main phase; reserve fuel is the margin on it plus the additional reserve plus the mass lost from the start of the first to the end of the last reserve phase; total fuel, block fuel, the mass, range and fuel capacity residuals, the mass after taxi and takeoff, and the distance flown in a phase with a target distance follow from them and from the ends of the phases, consecutive phases continue mass, time and distance, and the optimizer is required to close each residual. Gearboxes, motors and batteries conserve power: output speed times gear ratio is input speed, output power is efficiency times input power, torque times speed is power, and the battery loses the energy used over its efficiency. Total drag is dynamic pressure times wing area times the factored drag coefficient, and lift balances weight.',
  ['inputs', 'configurations'],
  'all masses, speeds, powers, margins and efficiencies; missions with any number of main and reserve phases (checked up to three)',
  'A balance with a missing or doubled term still converges; tests compare outputs of a few missions and groups, most without reserve phases, margins or target distances.',
  ['aviary/subsystems/energy', 'aviary/core/aviary_group.py', 'aviary/mission', 'aviary/subsystems/propulsion/gearbox', 'aviary/subsystems/propulsion/motor', 'aviary/subsystems/propulsion/utils.py', 'aviary/subsystems/aerodynamics/flops_based/drag.py', 'aviary/subsystems/aerodynamics/solve_alpha_group.py'],
  [('FuelSummationGroup', 'aviary/subsystems/energy/fuel_summation.py'), ('CoreEnergyBuilder.get_post_mission_bus_variables', 'aviary/subsystems/energy/energy_builder.py'),
   ('AviaryGroup.add_post_mission_systems, link_phases, add_design_variables', 'aviary/core/aviary_group.py'), ('separate_reserve_phases', 'aviary/mission/utils.py'),
   ('GearboxMission, MotorMission', 'aviary/subsystems/propulsion')],
  observe=['outputs of the groups', 'connections of the ends of the phases', 'constraints and linkages of the problem'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
