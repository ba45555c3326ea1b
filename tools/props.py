"""The texts of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
V = 'aviary/variable_info/'
S = 'aviary/subsystems/'
U = 'aviary/utils/'
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, technique, level, note, **kw):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
        technique=technique, level=level, level_note=note, **kw))


P('C01', 'Named-value collections behave as ordered dictionaries with units',
  'A collection of named values always behaves as an insertion-ordered dictionary from a name to a '
  'value with its units: after any history of writes, bulk updates, deletions, clearing, copies and '
  'deep copies, every read, listing, membership test, length and equality comparison agrees with such '
  'a dictionary, and a rejected write changes nothing. '
  'A value read in other units is the exact conversion of the stored one, whether it is a scalar, list, tuple or '
  'array, of integers or floats, and reading never changes what is stored; incompatible units are refused. '
  'Copies and deep copies are independent of the original.',
  ['histories', 'inputs'],
  'Every sequence of operations up to the bound on two collections, and every kind of value x pair of units.',
  'Unit tests sample a few short sequences; aliasing between copies, leftovers after failed writes and '
  'truncated conversions only show up in particular histories and kinds of values.',
  [U + 'named_values.py', U + 'aviary_values.py', U + 'utils.py'],
  [('NamedValues / AviaryValues set, get, update, copy, delete', U + 'named_values.py'),
   ('unit conversion of reads', U + 'utils.py wrapped_convert_units')],
  'explicit-state exploration of all operation sequences on the real classes against a reference model',
  'model_checking',
  'Exhaustive over all operation sequences up to the depth bound and all listed value kinds and units; '
  'the reference model is stepped in lockstep with the implementation, so every model trace is replayed on it.')

P('C02', 'Aircraft values are checked against the variable database on every write',
  'Writing a value for a variable of the database succeeds exactly when its units are convertible to the '
  'documented units and its type (or every member of its list, tuple or array) is of the documented type, an '
  'integer for a float or an accepted spelling of an option; what is then read back is the intended value in the '
  'same kind of container and in the given units. '
  'A rejected write raises an error and leaves the collection unchanged, and the object passed in is never modified. '
  'A user-supplied database is honoured in the same way.',
  ['inputs'],
  'Every variable of the database x every representative kind of value and container x unit.',
  'Tests write a handful of variables; there are over 600, with different types, options and units.',
  [U + 'aviary_values.py', V + 'functions.py', V + 'enums.py', V + 'variable_meta_data.py'],
  [('type, unit and option checks of AviaryValues.set_val', U + 'aviary_values.py'),
   ('enum option conversion', V + 'functions.py enum_setter'), ('database', V + 'variable_meta_data.py')],
  'exhaustive enumeration of variables x values x units against an independent oracle', 'exploration',
  'Exhaustive over all variables of the database and the listed alphabet of values and units.')

P('C03', 'Components receive the right defaults, options and parameters',
  'An input, output or option declared from the variable database carries the database default and units, exactly '
  'converted when it is declared in other units. '
  'When options are set from aircraft data every component gets the value of that data, expressed in the units '
  'of its own declaration, and per-engine values go to exactly the engine they belong to whatever the engines are called. '
  'A trajectory parameter reaches every phase that needs it with its value and units, and no other.',
  ['inputs', 'configurations'],
  'Every variable x compatible unit x kind of declaration; every assignment of engine names; every assignment of '
  'parameters to phases, within the bounds.',
  'Tests use one or two engines with fixed names and a few variables; leaks between engines or phases need '
  'particular names or orders.',
  [V + 'functions.py'],
  [('add_aviary_input / add_aviary_output / add_aviary_option', V + 'functions.py'),
   ('setup_model_options', V + 'functions.py'), ('setup_trajectory_params', V + 'functions.py')],
  'exhaustive enumeration of declarations and engine/phase configurations on the real code', 'exploration',
  'Exhaustive over all database variables and all listed units, engine names and phase sets.')

P('C04', 'Engine decks reproduce their data at every tabulated condition',
  'An engine model built from tabulated performance data, from a file or memory, whatever the order of its rows, '
  'accepted column names and units, and number of altitudes and throttle settings at each Mach number, reproduces at '
  'every tabulated point exactly the tabulated outputs (thrust net of ram drag plus tailpipe thrust), scaled by the '
  'engine scale factor and fuel-flow scalers. '
  'Maximum thrust and shaft power are those of the highest throttle of the condition, throttles are normalised to 0..1 '
  'over the deck or per condition as selected, and reference thrust, scale factor and scaled thrust agree. '
  'Inconsistent or incomplete data is refused, and when flight idle is requested one idle point with the documented '
  'values is added to each condition whose lowest thrust is positive.',
  ['inputs', 'configurations'],
  'Every shape of table (altitudes per Mach number, throttle settings per condition), column set, spelling, unit, order '
  'of rows and option in the bounds.',
  'The tests read a few regular decks; ragged decks, other column sets and option combinations follow other paths.',
  ['aviary/subsystems/propulsion/engine_deck.py', 'aviary/subsystems/propulsion/engine_scaling.py',
   'aviary/subsystems/propulsion/engine_sizing.py', 'aviary/subsystems/propulsion/utils.py'],
  [('reading, sorting, normalising and packing the deck', 'aviary/subsystems/propulsion/engine_deck.py'),
   ('scaling of outputs', 'aviary/subsystems/propulsion/engine_scaling.py'),
   ('reference thrust and scale factor', 'aviary/subsystems/propulsion/engine_sizing.py')],
  'exhaustive enumeration of deck shapes and options on the real code against an independent reader', 'exploration',
  'Exhaustive over the listed table shapes, columns, units, orders and options; the model is executed at every tabulated point.')

P('C05', 'Data tables survive a round trip and equivalent files read the same',
  'A table of numbers written to a data file and read back has the same columns in the same order with the same values, '
  'units, input/output labels and comments, and writing or reading never modifies the objects of the caller. '
  'Files that differ only in separator, spacing, comments, blank lines, line endings, a byte order mark or the accepted '
  'spelling of a column name read as the same table; columns unknown to the given database are left out and no others. '
  'Malformed files (text among the numbers, invalid or incompatible units, missing file, a variable given twice) are refused.',
  ['inputs'],
  'Every table shape, kind of values, unit, label and comment style; every combination of spelling variations; every listed malformation.',
  'Tests use two or three example files; combinations of features (labels, nested units, skipped columns) interact.',
  [U + 'csv_data_file.py'],
  [('read_data_file', U + 'csv_data_file.py'), ('write_data_file', U + 'csv_data_file.py')],
  'exhaustive enumeration of tables and file spellings, written and read by the real code', 'exploration',
  'Exhaustive over all combinations of the listed features.')

P('C06', 'Aircraft files are read as written, and saved aircraft load unchanged',
  'Each row of an aircraft file gives its variable exactly the value or list of values and the units written in it '
  '(the units of the database when none are written), whatever its spacing, extra commas, brackets or comments; a later '
  'row of a variable replaces an earlier one, initial guesses are collected separately and unknown variables are left out. '
  'The verbosity of the file applies unless another one is requested. '
  'An aircraft saved to a file and loaded again has the same values and units for every variable.',
  ['inputs', 'histories'],
  'Every variable of the database x value x unit x spelling of the row; every sequence of rows up to the bound; every variable and kind of value saved and loaded.',
  'Tests read the bundled aircraft; particular values (scientific notation, lists ending in zero, options) follow other paths.',
  [U + 'process_input_decks.py', U + 'aviary_inputs_to_csv.py', U + 'functions.py'],
  [('parse_inputs / create_vehicle', U + 'process_input_decks.py'), ('save_to_csv_file', U + 'aviary_inputs_to_csv.py'),
   ('text to values', U + 'functions.py convert_strings_to_data')],
  'explicit-state exploration of row sequences against a last-row-wins model, and exhaustive enumeration of rows and round trips on the real code',
  'model_checking',
  'Exhaustive over all variables, the value, unit and spelling alphabets, and all row sequences up to the depth bound; every model trace is replayed on the real reader.')


P('C07', 'Data of several engines is combined per engine, in order',
  'For every engine or nacelle variable that can have several values, preprocessing gives each engine its own value if '
  'it has one, else the vehicle-level value (the entry of that engine, or the single value given for all), else the '
  'database default, in database units and engine order, with the wing locations of the engines concatenated; '
  'other data and the engines\' own options are untouched and repeating it changes nothing. '
  'Engine counts are consistent: for each engine total = wing + fuselage and never fewer than given, unplaced engines '
  'go on the wing except a single one, which goes on the fuselage, and the aircraft totals are the sums.',
  ['inputs', 'configurations'],
  'Every engine variable x which of one to three engines and the vehicle give it x units; every combination of counts.',
  'Tests use two engines and a few variables; wrong order, regrouping on repetition and defaults need other mixtures.',
  [U + 'preprocessors.py', V + 'variable_meta_data.py'],
  [('preprocess_propulsion', U + 'preprocessors.py'), ('multivalue flags and types', V + 'variable_meta_data.py')],
  'exhaustive enumeration of engine variables x sources x engine counts against an independent oracle', 'exploration',
  'Exhaustive over all multi-valued engine variables and all listed patterns of sources and counts. A vehicle-level list '
  'of wing locations together with several engines is left out (how it is shared is not specified).')


DERIV_ST = (
  'At every operating point where its outputs are finite, the derivatives a component reports for the optimizer are '
  'the derivatives of the outputs it computes, for every output, every input and every combination of options; where '
  'the outputs have a kink any slope between the two sides is allowed. '
  'They do not depend on earlier evaluations at other points.')

P('C08', 'Reported derivatives are right: mission, aerodynamics, propulsion, atmosphere',
  DERIV_ST + ' This covers the components of trajectories, aerodynamics, atmosphere, propulsion, energy and performance.',
  ['inputs', 'configurations'],
  'Every component x combination of its options x operating point of the bounds x (output, input) pair.',
  'Partials are tested at one point with one set of options; each option and side of a limit has its own formulas.',
  ['aviary/mission', S + 'aerodynamics', S + 'propulsion', S + 'atmosphere', S + 'energy', S + 'performance'],
  [('equations of motion', 'aviary/mission'), ('drag and lift', S + 'aerodynamics'),
   ('propellers, gearboxes, motors, engine sums', S + 'propulsion'), ('atmosphere', S + 'atmosphere')],
  'exhaustive enumeration of component x option combination x operating point on the real code; every derivative compared with extrapolated differences',
  'exploration',
  'Exhaustive over the recorded components, their discrete options and the grid of operating points; wide components (over 130 inputs) and those '
  'the harness cannot evaluate alone are left out.')

P('C09', 'Reported derivatives are right: geometry and mass',
  DERIV_ST + ' This covers the components of the geometry and mass estimation, with one or several engine types.',
  ['inputs', 'configurations'],
  'Every component x combination of its options (numbers of engines included) x operating point of the bounds x (output, input) pair.',
  'Partials are tested at one point with one set of options and mostly scalers of 1; each option has its own formulas.',
  [S + 'geometry', S + 'mass'],
  [('FLOPS geometry', S + 'geometry/flops_based'), ('GASP geometry', S + 'geometry/gasp_based'),
   ('FLOPS mass', S + 'mass/flops_based'), ('GASP mass', S + 'mass/gasp_based')],
  'exhaustive enumeration of component x option combination x operating point on the real code; every derivative compared with extrapolated differences',
  'exploration',
  'Exhaustive over the recorded components, their discrete options and the grid of operating points; wide components (over 130 inputs) and those '
  'the harness cannot evaluate alone are left out.')

P('C10', 'Values at a point of the trajectory depend on that point only',
  'Components that work on several points of the trajectory at once give at each point exactly the values they give '
  'when that point is computed alone with the same parameters: whatever the number and the order of the points, what '
  'is computed at one does not depend on the conditions at another. '
  'Results that accumulate along a phase by design (distance, fuel and range histories) are exempt.',
  ['inputs', 'configurations'],
  'Every component with several points x combination of its options x sequence of up to three points from the alphabet.',
  'Tests compare a few points in one order; a wrong index, broadcast or shared intermediate needs other sequences.',
  ['aviary/mission', S + 'aerodynamics', S + 'propulsion', S + 'atmosphere', S + 'energy', S + 'performance'],
  [('equations of motion', 'aviary/mission'), ('drag and lift', S + 'aerodynamics'),
   ('propellers, engine decks, engine sums', S + 'propulsion'), ('atmosphere', S + 'atmosphere')],
  'exhaustive enumeration of component x option combination x sequence of points on the real code, compared with each point computed alone',
  'exploration',
  'Exhaustive over the recorded components with several points, their discrete options and all pairs of points (triples of the first five) '
  'of the alphabet; times are kept nondecreasing within a sequence.')

P('C11', 'Every mass total is the sum of its parts',
  'In the analysis before the mission every total mass equals the sum of the masses it stands for, whichever mass method is used: '
  'structure, propulsion, systems and equipment, empty, operating, zero-fuel, payload and fuel mass, and the external subsystems, '
  'with masses given per engine counted once for every engine of every type. '
  'This holds for computed parts and for parts given in the aircraft data instead.',
  ['inputs', 'configurations'],
  'Every aircraft x engine types x external subsystems, every mass changed or given instead of computed, alone and together.',
  'Tests check each total at the published numbers of an aircraft; a given part or another engine type is not tried.',
  [S + 'mass', 'aviary/core/aviary_group.py', 'aviary/variable_info/functions.py'],
  [('mass summation', S + 'mass/flops_based/mass_summation.py'), ('mass summation', S + 'mass/gasp_based/mass_summation.py'),
   ('given values replacing computed ones', 'aviary/variable_info/functions.py')],
  'exhaustive enumeration of aircraft x engine configuration x given masses, the analysis built and run by the real code, exact sums as oracle',
  'exploration',
  'All provided aircraft as they are and with all parts given; two of them with further engine types and external subsystems and with every single mass given (thorough: all aircraft, and pairs of parts of one total). '
  'Three totals that ignore a given part computed by the same component are known findings.')
P('C12', 'What the aircraft data give is what the analysis uses',
  'A value given in the aircraft data, in any unit, is the value every part of the analysis before, during and after the mission works with, '
  'whether or not Aviary could have computed it. '
  'A given value replaces the computed one for everything that uses it, stays when the analysis runs, and giving the value that would have been computed changes nothing else.',
  ['inputs', 'configurations'],
  'Every aircraft x every given or computable variable x every component that has it as an input.',
  'Tests run each aircraft with its published data; which component silently falls back to a default only shows for other values.',
  ['aviary/variable_info/functions.py', 'aviary/core/aviary_group.py', S + 'aerodynamics/aerodynamics_builder.py', 'aviary/mission'],
  [('given values replacing computed ones', 'aviary/variable_info/functions.py'), ('default values', 'aviary/core/aviary_group.py'),
   ('phase parameters', S + 'aerodynamics/aerodynamics_builder.py'), ('phase parameters', 'aviary/mission')],
  'exhaustive enumeration of given variables x consumers in the problem built and run by the real code; every component input is compared with what was given',
  'exploration',
  'Every given value of every provided aircraft, before the mission and in the default mission with every value changed; each computable variable of two aircraft given in turn (thorough: of every aircraft). '
  'The flap results of GASP aerodynamics, which cannot be given, are known findings.')

P('C13', 'Incomplete aircraft data are completed consistently',
  'Passenger, seat class, crew, baggage, cargo, fuel tank, seat layout, tail and atmosphere data left out of an aircraft are completed from the data that are given '
  'as the documentation of those variables says, and data that contradict each other are refused, while consistent data are accepted in any unit. '
  'Given data are kept, except that class counts override a different total, crew sums override a different total of cabin crew, and a sizing mission flies the design cargo, '
  'and completing completed data again changes nothing (repeated cargo completion excepted).',
  ['inputs', 'configurations'],
  'Every subset of the related variables given, with every combination of the values of the alphabet and, for masses, in two units.',
  'Tests try a few subsets of given data; a wrong branch shows only for one particular subset.',
  ['aviary/utils/preprocessors.py', 'aviary/utils/process_input_decks.py'],
  [('completion of options', 'aviary/utils/preprocessors.py'), ('loading of the aircraft', 'aviary/utils/process_input_decks.py')],
  'exhaustive enumeration of subsets of given data x values on the real code, exact independent completion rules as oracle',
  'exploration',
  'All combinations of given values and absences of each family of related variables; families are enumerated separately.')

P('C14', 'Legacy (FLOPS, GASP) decks are converted variable by variable',
  'Converting a legacy input deck gives every variable of the deck that Aviary knows its documented Aviary variables with the same value, list or combined value, '
  'in the legacy units or those written beside it, and affects nothing else, whatever the spelling, order, spacing, comments and grouping into namelists; a variable given twice keeps the later value. '
  'Initial guesses and Aviary names in the deck are taken over, a deck lacking required data or with unusable settings is refused by name, and an existing output is only replaced when asked for. '
  'The result does not depend on what was converted before.',
  ['inputs', 'histories'],
  'Every legacy variable x alphabet of values, all pairs of related variables in both orders, all spellings, and all sequences of conversions up to the bound.',
  'Tests convert a handful of published decks and compare the output with stored files.',
  [U + 'fortran_to_aviary.py', U + 'legacy_code_data', V + 'variable_meta_data.py'],
  [('reading and conversion of legacy decks', U + 'fortran_to_aviary.py'), ('deprecated variables', U + 'legacy_code_data'),
   ('names in the legacy codes', V + 'variable_meta_data.py')],
  'exhaustive enumeration of decks on the real converter against an independent table of the documented names and rules; sequences of conversions compared with isolated ones',
  'exploration',
  'All legacy names of the database at the date of writing x values, x spellings; pairs and triples of interacting variables; sequences of conversions of length 2 (thorough: 3).')

P('C15', 'Flight conditions follow the selected atmosphere at every altitude and speed',
  'At every altitude within its table each atmosphere model gives the tabulated temperature, pressure and density, smoothly interpolated in between, with the requested temperature offset '
  '(pressure unchanged, density by the gas law), and the speed of sound, its slope and the viscosity that follow from them; geometric altitudes are converted to geopotential ones. '
  'True and equivalent airspeed, Mach number and dynamic pressure always describe the same flight condition, whichever of them is given. '
  'In a mission every phase uses the selected model and sea level density.',
  ['inputs', 'configurations'],
  'All models x altitude definitions x temperature offsets x all tabulated altitudes and points between them x speeds x kind of speed given; whole missions for each model.',
  'Tests compare a few altitudes of some models.',
  [S + 'atmosphere', 'aviary/mission/base_ode.py'],
  [('atmosphere tables', S + 'atmosphere/atmosphere.py'), ('speeds', S + 'atmosphere/flight_conditions.py'), ('tables', S + 'atmosphere/data'),
   ('use in the phases', 'aviary/mission/base_ode.py')],
  'exhaustive enumeration of flight conditions on the real components against independent splines through a stored copy of the tables and the gas laws',
  'exploration',
  'All 13 models, all table nodes and 7 points (thorough: 45) in every interval, both altitude definitions; default missions of a FLOPS and a GASP aircraft with 7 (13) models.')

P('C16', 'Flight obeys the equations of motion in every phase',
  'In every formulation of the equations of motion the rates of speed, flight path angle, altitude and distance and the forces, load factors and thrust required are those Newton\'s laws '
  'give for the forces, mass and attitude at that point, on the ground with friction and normal force as well as in the air, and points do not affect one another. '
  'Analytic cruise gives the distance and time that follow from integrating speed over the fuel or energy used. '
  'In whole missions the reported rates of every phase follow from the reported forces, and mass, distance, altitude, speed and path angle are driven by them.',
  ['inputs', 'configurations'],
  'All formulations x options x a full grid of forces, masses, speeds and angles, on every point; whole missions for each aircraft, phase and change of the mission.',
  'Tests compare the components with stored values at two points and with their own derivatives.',
  ['aviary/mission/energy_state/ode', 'aviary/mission/two_dof/ode', 'aviary/mission/solved_two_dof/ode'],
  [('energy-state formulations and takeoff', 'aviary/mission/energy_state/ode'), ('two degree of freedom formulations', 'aviary/mission/two_dof/ode'),
   ('solved formulations', 'aviary/mission/solved_two_dof/ode')],
  'exhaustive enumeration of points on the real components against independently written equations of motion; numerical integration as oracle for analytic cruise',
  'exploration',
  'Full product of 2-4 values of each quantity per formulation (thorough: more); default missions of a FLOPS and a GASP aircraft with four changes (thorough: four aircraft).')

P('C17', 'Analyses in one session do not influence one another',
  'The results of an analysis and what its optimiser is told depend only on what it was given: they are the same in a fresh session and after any other analyses, failed ones included, '
  'even when these used the same aircraft data and mission description. Problems built before still give the same results when run again. '
  'An off-design mission or payload-range diagram leaves the sized problem and the mission description it was made from as they were.',
  ['histories', 'configurations'],
  'Every sequence of analyses up to the bound, each continued from the very state of the session before it, against the same analysis in a fresh process.',
  'Tests run one analysis per process, on deep copies.',
  ['aviary/core', 'aviary/mission', 'aviary/utils', 'aviary/variable_info', S + 'subsystem_builder.py'],
  [('problem and off-design missions', 'aviary/core/aviary_problem.py'), ('aircraft and mission of a problem', 'aviary/core/aviary_group.py'),
   ('variables', 'aviary/variable_info')],
  'exhaustive exploration of sequences of analyses by forking the process after every step; oracle = the same analysis in a fresh process',
  'exploration',
  'All pairs of 11 analyses (thorough: of 16, and all triples of 8), every problem of the session run again after each; the optimiser itself is not iterated.')

P('C18', 'Propulsion totals add up over every engine of every type',
  'At every point of a mission the total thrust, maximum thrust, fuel flow, electric power and NOx rate are the sums over the engine types of the number of engines times what one engine gives '
  'at its own throttle and hybrid throttle and with its own parameters, in whatever units it works and whichever of these it computes; an engine that does not compute its maximum thrust or '
  'shaft power has that of full throttle at the same flight condition, and what each engine type gives is reported in the order of the types. '
  'Before the mission each engine type gets its own data and its results take its own place, results it does not compute keep the given or default value, and the total sea level thrust is the sum. '
  'Throttles allocated to the types are the allocated shares of the common throttle, the last type taking the rest.',
  ['configurations', 'inputs'],
  'All mixes of up to three engine types with different capabilities, in every order and number, at several points; whole missions with several types.',
  'Tests use one or two particular combinations of real engines.',
  [S + 'propulsion/propulsion_mission.py', S + 'propulsion/propulsion_premission.py', S + 'propulsion/throttle_allocation.py', S + 'propulsion/propulsion_builder.py'],
  [('engines in the mission and their sums', S + 'propulsion/propulsion_mission.py'), ('engines before the mission', S + 'propulsion/propulsion_premission.py'),
   ('throttle allocation', S + 'propulsion/throttle_allocation.py')],
  'exhaustive enumeration of engine mixes on the real propulsion groups with engine models whose outputs are known in closed form',
  'exploration',
  'Seven kinds of engine in the mission and four before it, all ordered mixes of 1-3 (quick: triples of different kinds), 1-3 points, two sets of values each; two (thorough: three) whole missions.')

P('C19', 'The books of a mission balance and its phases join up',
  'For every mission, at every point the optimiser may try: the final mass, time and range are those at the end of the last phase that is not a reserve; fuel burned is the gross mass less that final mass; '
  'reserve fuel is the margin on the fuel burned plus the fixed amount plus what the reserve phases burn, however many there are; the mass residual held at zero is fuel loaded less fuel burned less reserve fuel; '
  'the fuel is made to fit the tanks unless the caller waives that; block fuel adds taxi-in; the range residual, requested phase distances and durations are what the caller asked, in any units, and are held. '
  'Flight starts with the gross mass less the fuel of the ground phases. Time, mass and distance (and free altitude, Mach number or speed) of consecutive phases are the same or held equal, whether linked directly or by constraint.',
  ['configurations', 'histories'],
  'All missions over a table of equations of motion, phases, numbers of reserves, links, margins, targets, takeoff and landing; at several points of the design space each.',
  'Tests read one final result of a few missions; fuel accounts of reserves are tested only by feeding the summation by hand.',
  ['aviary/core/aviary_group.py', S + 'energy/fuel_summation.py', S + 'energy/energy_builder.py', 'aviary/mission/energy_state_problem_configurator.py', 'aviary/mission/two_dof_problem_configurator.py', 'aviary/mission/utils.py'],
  [('final values, targets and links', 'aviary/core/aviary_group.py'), ('fuel accounts', S + 'energy/fuel_summation.py'), ('what is fed to the accounts', S + 'energy/energy_builder.py'),
   ('start and end of the mission', 'aviary/mission/energy_state_problem_configurator.py'), ('start and end of the mission', 'aviary/mission/two_dof_problem_configurator.py')],
  'exhaustive enumeration of missions on the real problem with all design variables moved to several points; books recomputed from the phases and every jump between phases matched against the constraints',
  'exploration',
  '34 missions (thorough 62): energy state and two degrees of freedom, 0-3 reserve phases, links direct or by constraint, free or given ends, distance and duration targets; three points each. Not the solved two-degree-of-freedom missions, nor parallel (MPI) runs.')

P('C20', 'The optimiser works on the problem the caller describes',
  'For every combination of phase options, in any units: the optimiser chooses exactly the controls it may choose, within the bounds given (and no others); specified initial and final values of states and controls are '
  'flown or held by an equality at every point the optimiser may try; durations and initial times are the given ones or are chosen within their bounds, also in reserve phases; a control of a given polynomial '
  'order is such a polynomial; throttle limits, climb and descent rules, required climb rates and the caller\'s own constraints hold at the requested places with the requested limits, a caller\'s constraint replacing the '
  'built-in one; given scales are used and none is zero or infinite. The objective is the quantity documented for its type or problem type, taken from the main mission, better in the documented direction, divided by the '
  'given reference; each problem type frees, ties and limits the gross masses and holds the range as documented.',
  ['configurations', 'inputs'],
  'All pairs of seven alternatives in each of seven groups of phase options (an orthogonal array of missions), for every phase; all objectives x problem types; at several points.',
  'Tests of options look at the option dictionaries or run one optimisation; none checks what the optimiser is given against what was asked.',
  ['aviary/mission/phase_builder.py', 'aviary/mission/flight_phase_builder.py', 'aviary/mission/two_dof/phases', 'aviary/mission/energy_state_problem_configurator.py',
   'aviary/mission/two_dof_problem_configurator.py', 'aviary/utils/aviary_options_dict.py', 'aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py'],
  [('states, controls and constraints of a phase', 'aviary/mission/phase_builder.py'), ('flight phases', 'aviary/mission/flight_phase_builder.py'),
   ('times and guesses', 'aviary/mission/energy_state_problem_configurator.py'), ('times and guesses', 'aviary/mission/two_dof_problem_configurator.py'),
   ('options and units', 'aviary/utils/aviary_options_dict.py'), ('objectives and problem types', 'aviary/core/aviary_problem.py')],
  'exhaustive enumeration of an orthogonal array of missions on the real problem; design variables, constraints and objective read back from the assembled problem in physical units and compared with the options, at several points',
  'exploration',
  'Quick: 21 missions of the array, in which every alternative occurs in every phase, and 24 objective/problem-type missions; thorough: all 98 and 36. Energy-state and two-degree-of-freedom flight phases; not the takeoff phases of the latter, nor composite objectives.')

P('C21', 'Takeoff and landing match what flying them takes',
  'Wherever the airport lies, the landing of the two-degree-of-freedom mission uses the stall speed in the air at the airport and the specified multiple of it as approach speed, begins at the obstacle height above the airport, and '
  'its distance is what flying takes: the glide from the obstacle at the allowed sink rate, the flare at the allowed load factor to the touchdown sink rate, the roll before braking, and the braked roll with the friction, '
  'drag, lift and idle thrust at touchdown. Takeoff and landing of the energy-state mission use the speeds that follow from the maximum lift coefficients, masses and air at the airport (for the landing, at the end of the flight), '
  'the field lengths of the published relations, a mass less the taxi and takeoff fuel, and end 35 ft above the airport.',
  ['inputs', 'configurations'],
  'All combinations of airport altitudes and seven takeoff or landing settings in whole missions, each result compared with an independent calculation.',
  'Tests have all airports at sea level and one value of every setting.',
  ['aviary/mission/two_dof/ode/landing_ode.py', 'aviary/mission/two_dof/ode/landing_eom.py', 'aviary/mission/energy_state/phases/simplified_takeoff.py', 'aviary/mission/energy_state/phases/simplified_landing.py'],
  [('landing with two degrees of freedom', 'aviary/mission/two_dof/ode/landing_ode.py'), ('its distances', 'aviary/mission/two_dof/ode/landing_eom.py'),
   ('takeoff', 'aviary/mission/energy_state/phases/simplified_takeoff.py'), ('landing', 'aviary/mission/energy_state/phases/simplified_landing.py')],
  'exhaustive enumeration of a grid of airports and settings on the real missions; distances integrated numerically along the flight path as oracle',
  'exploration',
  '384 landings of each of two aircraft, 96 takeoffs and landings of each of two more (thorough: four). Airports from -400 to 8000 ft in the standard atmosphere; lift and drag coefficients at touchdown are taken from the code. The small-angle '
  'flare and the rounded constants of the code are within the tolerance of 0.6% of the distance.')

P('C22', 'Missions flown together are each what they are alone',
  'In a problem of several missions, every result of every mission is what the same aircraft and mission give alone at the same point, whatever the other missions are and in whatever order they were added; '
  'a shared input takes its one value in exactly the missions that share it, and as a design variable starts at its default and stays within its bounds; the design range is the longest of the given missions; '
  'no mission is heavier than the design gross mass of its aircraft; the objective is the mean of the requested outputs, each weighted as requested, divided by its reference. Adding missions to a problem of another kind is refused.',
  ['configurations', 'histories'],
  'A table of sets of two to four missions (kinds of aircraft, payload, range, equations of motion, order), shared inputs and objectives, at several points.',
  'The only test needs an optimiser that is not installed.',
  ['aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py', 'aviary/variable_info/functions.py'],
  [('missions, shared inputs, objectives', 'aviary/core/aviary_problem.py'), ('one mission', 'aviary/core/aviary_group.py'), ('options and initial values', 'aviary/variable_info/functions.py')],
  'exhaustive enumeration of a table of multi-mission problems on the real code; every output of every mission compared with the mission alone at two points; shared inputs and objective recomputed',
  'exploration',
  'Nine sets of missions (thorough: 15) at two points each, at the initial guesses and with moved masses and shared values; no optimisation is run. Energy-state and two-degree-of-freedom missions of three aircraft and payloads.')
