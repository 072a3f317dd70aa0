"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing; both files are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'gerabaldi/models/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Simulating leaves the caller\'s objects untouched',
     'Running a simulation never changes the test description, the device model\'s parameters, the test environment or the initial '
     'state it was given, and gives the same starting point to every later run. The report starts from the test\'s own name, description and '
     'sizes and shares no mutable object with the inputs.',
     ['inputs', 'histories'], 'every test description, device model, environment and optional initial state',
     'Tests run single simulations and look at the reports; none compares the inputs before and after for arbitrary step lists.',
     ['gerabaldi/sim.py', M + 'reports.py'],
     [('deep copy of the supplied state', 'gerabaldi/sim.py: simulate'), ('report built from the test description', M + 'reports.py: SimReport.__init__')],
     [('simulation state', 'current and initial values, latents, elapsed time', M + 'states.py: SimState')], ['simulate', 'TestSpec', 'SimReport'])
prop('C02', 'Every step runs exactly once, in order, under its own number',
     'A simulation carries out each step of the test exactly once and in the listed order, each numbered by its position, stress steps '
     'as stress and measurement steps as measurement, all on one evolving device state. A test keeps exactly the steps it was '
     'given, in order, separately from every other test.',
     ['inputs', 'programs'], 'every sequence of stress and measurement steps, of any length',
     'Tests use one or two fixed step lists.',
     ['gerabaldi/sim.py', M + 'test_specs.py'],
     [('dispatch loop over the test', 'gerabaldi/sim.py: simulate'), ('iteration and appending of steps', M + 'test_specs.py: TestSpec')],
     [('steps', 'ordered steps of a test', M + 'test_specs.py: TestSpec.steps')], ['simulate'])
prop('C03', 'Simulated time advances by stress durations only',
     'A stress step advances simulated time by exactly its duration, and its summary row starts at the time before and ends at the time after; '
     'a measurement takes no time and its row starts and ends at the current time. Every summary row also carries the step\'s name, '
     'kind, number, duration and all its conditions. A run resumed at some elapsed time continues from it; a plain number means hours.',
     ['inputs', 'histories'], 'every step, condition set, prior elapsed time and prior report',
     'Tests assert a few summary fields of single steps.',
     ['gerabaldi/sim.py', M + 'reports.py'],
     [('elapsed time update and summary row', 'gerabaldi/sim.py: _sim_stress_step'), ('summary row', 'gerabaldi/sim.py: _sim_meas_step'),
      ('rows appended', M + 'reports.py: SimReport.add_summary_report')],
     [('elapsed', 'simulated time so far', M + 'states.py: SimState.elapsed')], ['test summary of the report'])
prop('C04', 'Stress histories compose through equivalent stress time',
     'For every degrading parameter a stress phase first finds, per mechanism and under the new conditions, the time that would have '
     'produced the present degradation, adds the phase\'s duration in that mechanism\'s own unit and evaluates the mechanism at that total. '
     'The equivalent time is searched by minimising the distance between the present degradation and the mechanism equation under the '
     'same conditions and latents, and the parameter\'s new value combines its initial value with all mechanism values.',
     ['inputs', 'histories'], 'every device model, mechanism equation, conditions, latents, prior degradation and duration',
     'Tests check two mechanisms at fixed numbers; a wrong argument or unit only shows for other models, units or histories.',
     ['gerabaldi/sim.py', M + 'devices.py'],
     [('stress step', 'gerabaldi/sim.py: _sim_stress_step'), ('per-mechanism equivalent times', M + 'devices.py: DegPrmMdl.calc_equiv_strs_times'),
      ('objective', M + 'devices.py: DegMechMdl.calc_equiv_strs_time'), ('values', M + 'devices.py: DegPrmMdl.calc_deg_vals')],
     [('current mechanism values', 'degradation so far, per mechanism', M + 'states.py: SimState.curr_deg_mech_vals')], ['simulation state after a stress step'])
prop('C05', 'Hard failures are permanent and memoryless',
     'A device whose failure mechanism has left its starting value keeps exactly that value under all later stress; every other device '
     'takes the value of the failure equation under the present phase. Failure mechanisms carry no equivalent stress time from '
     'earlier phases.',
     ['inputs', 'histories'], 'every failure equation, starting value, prior values, conditions and latents, per sample',
     'Tests evaluate one failure equation once; the latch must hold for each sample after any history.',
     [M + 'devices.py'], [('latch', M + 'devices.py: FailMechMdl.calc_deg_vals'), ('no history', M + 'devices.py: FailMechMdl.calc_equiv_strs_time')],
     (), ['mechanism values after stress'])
prop('C06', 'Unreachable degradation is held, reachable degradation follows the model',
     'A sample whose required stress time lies beyond the search range (above 9e9 in the mechanism\'s unit) keeps its present degradation '
     'unchanged through the phase. Every other sample takes exactly the mechanism equation\'s value at its total stress time.',
     ['inputs', 'histories'], 'every mechanism equation, prior finite degradation, time, conditions and latents, per sample',
     'Tests never mix samples on both sides of the limit.',
     [M + 'devices.py'], [('hold mask', M + 'devices.py: MechMdl.calc_deg_vals')], (), ['mechanism values after stress'])
prop('C07', 'Latent variables combine lot, chip and device variation per sample',
     'A latent variable yields one value per lot, chip and device: its fixed value (if any) combined with one device draw per device, one '
     'chip draw shared by the chip\'s devices and one lot draw shared by the lot, multiplied for scaling variation and added for offset '
     'variation. Absent layers contribute nothing, so a purely deterministic latent is constant.',
     ['inputs', 'configurations'], 'every combination of layers, both variation kinds, every fixed value and every lot/chip/device count',
     'Tests sample one or two configurations; mixed-up axes only show when lot, chip and device counts differ.',
     [M + 'devices.py', M + 'random_vars.py'],
     [('layered sampling', M + 'devices.py: LatentVar.gen_latent_vals'), ('neutral layers', M + 'devices.py: LatentVar.__setattr__'),
      ('constant draw', M + 'random_vars.py: Deterministic.sample')], (), ['LatentVar.gen_latent_vals'])
prop('C08', 'Applied conditions combine batch, chip and device variation',
     'Each requested condition is applied to each measured parameter with one batch-level draw per condition and step shared by all '
     'parameters, chip draws shared by a chip\'s devices across all parameters, and device draws per device, added or multiplied by the configured kind. '
     'Conditions without a variation model are applied exactly, and only '
     'parameters\' own sample counts decide the sizes.',
     ['inputs', 'configurations'], 'every set of conditions, parameters, variation models, kinds and counts',
     'Tests check shapes and a single condition with fixed counts.',
     [M + 'phys_envs.py'],
     [('layers', M + 'phys_envs.py: EnvVrtnMdl.gen_env_vrtns'), ('conditions per parameter', M + 'phys_envs.py: PhysTestEnv.gen_env_cond_vals')],
     (), ['PhysTestEnv.gen_env_cond_vals'])
prop('C09', 'Reconfiguring variability equals building it afresh',
     'Changing the variation kind, or replacing or removing any layer of a latent variable or environmental variation model, gives the same '
     'samples as one constructed that way from the start, for every order of prior configuration.',
     ['histories', 'configurations'], 'every prior configuration and reassignment of kind and layers',
     'Tests reassign one attribute of one object once.',
     [M + 'devices.py', M + 'phys_envs.py'],
     [('attribute hook', M + 'devices.py: LatentVar.__setattr__'), ('attribute hook', M + 'phys_envs.py: EnvVrtnMdl.__setattr__')], (), ['sampled values'])
prop('C10', 'Latents and initial values are drawn once and kept',
     'Latent and initial values are drawn when the device state is created, once for each latent of each mechanism, condition shift and '
     'parameter, with mechanisms starting at their starting value; stress phases never draw latents again nor alter '
     'initial or latent values.',
     ['inputs', 'histories'], 'every device model and number of stress steps',
     'Resampling is invisible to tests using deterministic latents.',
     ['gerabaldi/sim.py', M + 'devices.py', M + 'states.py'],
     [('latents per parameter', M + 'devices.py: DegPrmMdl.gen_latent_vals'), ('initial values', M + 'devices.py: InitValMdl.gen_init_vals'),
      ('stress step uses stored latents', 'gerabaldi/sim.py: _sim_stress_step')],
     [('latent values', 'drawn once per device state', M + 'states.py: SimState.latent_var_vals')], ['simulation state'])
prop('C11', 'Measuring never changes the devices',
     'A measurement step leaves the whole simulation state as it was: parameter and mechanism values, latents, initial values and elapsed time; the arrays '
     'and tables handed to parameter evaluation and to instruments are not written to.',
     ['inputs', 'histories'], 'every measurement step, state, environment and instrument',
     'Tests look at what is measured, not at what is left behind, and aliasing depends on array types and slices.',
     ['gerabaldi/sim.py', M + 'devices.py', M + 'phys_envs.py'],
     [('measurement step', 'gerabaldi/sim.py: _sim_meas_step'), ('truncation without writing', M + 'devices.py: DegPrmMdl.calc_cond_shifted_vals'),
      ('instrument', M + 'phys_envs.py: MeasInstrument.measure')], (), ['simulation state after a measurement'])
prop('C12', 'A measurement reports the parameter under the measurement conditions',
     'A measured parameter is its present value adjusted by the condition shift evaluated at the measurement conditions with '
     'that parameter\'s own latents, for exactly the requested number of devices of each chip, then passed through the instrument configured for it; '
     'circuit parameters are computed from present parameter values and sensors report the applied condition.',
     ['inputs'], 'every measurement step, device model, environment and device counts',
     'Tests measure all devices of a single parameter with an ideal instrument.',
     ['gerabaldi/sim.py', M + 'devices.py'],
     [('measurement step', 'gerabaldi/sim.py: _sim_meas_step'), ('condition shift', M + 'devices.py: DegPrmMdl.calc_cond_shifted_vals'),
      ('circuit values', M + 'devices.py: CircPrmMdl.calc_circ_vals')], (), ['measurements of the report'])
prop('C13', 'Instruments add error, then round, then clip',
     'An instrument reading is the true value plus its error draw (one per reading), rounded to the configured number of significant figures and then limited '
     'to the configured range, any of which may be absent; zero and non-finite values survive rounding. An instrument without settings is exact, '
     'and number, array and table-column inputs give readings element by element in the same form.',
     ['inputs', 'configurations'], 'every combination of error, precision and range settings and every input value or array',
     'Tests check a few readings; ordering and elementwise handling matter for all values near the limits.',
     [M + 'phys_envs.py'], [('reading', M + 'phys_envs.py: MeasInstrument.measure')], (), ['MeasInstrument.measure'])
prop('C14', 'Every measured sample is labelled with its own lot, chip and device',
     'Measurements are stored one row per sample with the parameter name, device, chip and lot number, the value of that very sample, the '
     'measurement time and the step number, numbers counting from zero and lots or chips that do not exist counting as one. Later rows are appended after '
     'earlier ones without altering them.',
     ['inputs'], 'every lot, chip and device count and every array of values',
     'A swapped index order is invisible when counts are equal or one, as in the tests.',
     [M + 'reports.py', 'gerabaldi/sim.py'], [('row layout', M + 'reports.py: SimReport.format_measurements'), ('appending', M + 'reports.py: SimReport.add_measurements')],
     (), ['measurements of the report'])
prop('C15', 'Durations and times convert exactly between the supported units',
     'Durations given as numbers mean the stated unit (hours when none is given) and time spans are kept as they are; converted report times equal '
     'the original time in the requested unit for days, hours, seconds, milliseconds and microseconds and their abbreviations, and converting again '
     'starts from the true time. Stress durations reach each mechanism in that mechanism\'s unit.',
     ['inputs'], 'every duration, unit name and stored time',
     'Tests convert a few values in hours and seconds.',
     ['gerabaldi/helpers.py', M + 'test_specs.py', M + 'reports.py', 'gerabaldi/sim.py'],
     [('conversion', 'gerabaldi/helpers.py: _convert_time'), ('durations', M + 'test_specs.py: StrsSpec'), ('report times', M + 'reports.py: SimReport.convert_report_time')],
     (), ['StrsSpec.duration', 'measurement times'])
prop('C16', 'A mechanism\'s time unit comes from the nearest level that states one',
     'Every degradation or failure mechanism of a device uses its own time unit if stated, otherwise its parameter\'s, otherwise the device\'s, '
     'otherwise hours, independently of the other parameters and mechanisms; a unit once settled does not change.',
     ['configurations'], 'every combination of units stated or missing at the three levels, any number of parameters and mechanisms',
     'Tests cover a handful of combinations on single-parameter devices.',
     [M + 'devices.py'], [('propagation', M + 'devices.py: DeviceMdl.propagate_time_unit'), ('propagation', M + 'devices.py: DegPrmMdl.propagate_time_unit'),
                          ('settling', M + 'devices.py: MechMdl.set_time_unit')], [('time_unit', 'unit of the mechanism equation\'s time', M + 'devices.py: MechMdl.time_unit')], ['mechanism time units'])
prop('C17', 'A report survives export and import',
     'Exporting a report yields its name, description, measurements and test summary with times as numbers in the stated unit, without changing the '
     'report, and writes the same content to the given file; importing that file gives back the same tables with the same times and values, however small; reports without measurements '
     'are exported, imported and converted like any other. A missing file or unknown unit is reported as an error.',
     ['inputs', 'histories'], 'every report, unit, conversion state and path',
     'Tests do not export reports at all.',
     [M + 'reports.py'], [('export', M + 'reports.py: SimReport.export_to_json'), ('import', M + 'reports.py: SimReport.__init__')],
     (), ['exported JSON', 'imported report'])
prop('C18', 'Every parameter gets exactly the sample count the test needs',
     'The number of devices prepared for a parameter is the largest number any measurement of the test requests for it; parameters only needed to compute '
     'a circuit parameter get at least as many devices, unmeasured ones the largest count in use (or one), and counts passed by the caller are not modified. '
     'All drawn arrays have that size per chip and lot.',
     ['inputs'], 'every test description, device model and count dictionary',
     'Tests use one measurement per parameter.',
     ['gerabaldi/sim.py', M + 'devices.py', M + 'test_specs.py'],
     [('largest request', M + 'test_specs.py: TestSpec.calc_samples_needed'), ('dependent parameters', 'gerabaldi/sim.py: gen_init_state'), ('state creation', M + 'devices.py: DeviceMdl.gen_init_state')],
     (), ['report device counts', 'initial state'])
prop('C19', 'Distributions draw with their stated parameters',
     'Each distribution passes exactly its current parameters, under the target library\'s own names and conventions (a gamma rate becomes a numpy scale of '
     'its inverse), and draws the requested number of values; equal seeds, including zero, give equal streams and unseeded ones are independent. Setting '
     'a normal distribution\'s centre changes only its mean.',
     ['inputs', 'configurations'], 'every distribution, parameter value, seed, target library and sample count',
     'Tests sample default parameters with one seed, where rate and scale cannot be told apart.',
     [M + 'random_vars.py'], [('parameter mapping', M + 'random_vars.py: RandomVar._get_dist_params'), ('generator', M + 'random_vars.py: RandomVar.__init__')], (), ['RandomVar.sample'])
prop('C20', 'Exporting to inference frameworks describes the model and leaves it unchanged',
     'A completed export of a latent variable gives, in the chosen framework, its device distribution centred by its fixed value and combined with '
     'its chip and lot distributions by the variation kind, and afterwards every distribution has the parameters it had before, so repeating the '
     'export gives the same result. Latents without a device distribution, constants and unknown frameworks are rejected without changing the model.',
     ['inputs', 'histories', 'configurations'], 'every layer combination, kind, fixed value (zero included), parameters and framework',
     'Tests export one latent per framework.',
     [M + 'devices.py', M + 'random_vars.py'], [('latent export', M + 'devices.py: LatentVar.cbi_export'), ('distribution form', M + 'random_vars.py: RandomVar.get_cbi_form'),
                                                ('model export', M + 'devices.py: LatentMdl.export_to_cbi')], (), ['cbi_export', 'get_cbi_form', 'export_to_cbi'])
prop('C21', 'Invalid configurations are rejected before anything changes',
     'Unknown variation kinds or time units, latents without any source of value, loops that cannot advance or end, uneven burn-in intervals, missing sample counts and '
     'measurements of unknown quantities each raise the package\'s own error. The object, test, report or state concerned is then as it was before the call.',
     ['inputs', 'fault_sequences'], 'every invalid argument and every prior state',
     'Tests assert that a few errors are raised, not that nothing was changed.',
     [M + 'devices.py', M + 'phys_envs.py', M + 'test_specs.py', 'gerabaldi/sim.py', 'gerabaldi/cookbook/test_specs.py'],
     [('kind check', M + 'devices.py: LatentVar.__setattr__'), ('loop checks', M + 'test_specs.py: TestSpec.append_steps'), ('measurement check', 'gerabaldi/sim.py: _sim_meas_step')],
     (), ['raised exceptions and object state'])
prop('C22', 'Looped steps repeat whole blocks for the requested duration',
     'Appending steps with a loop duration adds the given block, in order, the whole number of times whose total stress duration first reaches the requested duration in the '
     'stated unit (hours by default), after the steps already there; without a loop it is added once.',
     ['inputs'], 'every block of steps, durations, loop duration and unit',
     'Tests loop one block with one exact multiple.',
     [M + 'test_specs.py'], [('loop', M + 'test_specs.py: TestSpec.append_steps')], (), ['TestSpec.steps'])
prop('C23', 'Prebuilt tests, environments and mechanisms match their description',
     'The prebuilt burn-in test measures at room conditions first and last, stresses at the requested temperature and multiplied voltage for the full duration, with '
     'measurements under stress at every interval when one is requested, using the requested chip and lot counts. The prebuilt environments and mechanism have the documented '
     'variation, instruments and equation.',
     ['inputs', 'configurations'], 'every argument of the prebuilt tests, every input of the prebuilt models',
     'Tests only check the type or length of what is built.',
     ['gerabaldi/cookbook/test_specs.py', 'gerabaldi/cookbook/test_envs.py', 'gerabaldi/cookbook/mech_mdls.py'],
     [('burn-in test', 'gerabaldi/cookbook/test_specs.py: htol'), ('environments', 'gerabaldi/cookbook/test_envs.py'), ('mechanism', 'gerabaldi/cookbook/mech_mdls.py')], (), ['htol', 'ideal_env', 'volt_and_temp_env', 'jedec_nbti_mdl'])
prop('C24', 'Missing optional packages only fail when used',
     'Requesting an optional package returns it when it can be imported; otherwise the request itself succeeds and any later use of the stand-in raises an import error.',
     ['configurations', 'fault_sequences'], 'every module name and import outcome',
     'All optional packages are installed where the tests run.',
     ['gerabaldi/helpers.py'], [('stand-in', 'gerabaldi/helpers.py: _on_demand_import')], (), ['_on_demand_import'])
prop('C25', 'The equivalent-time search is a bounded search run per sample',
     'The search for equivalent stress times looks between its two bounds only, on the linear or the decade scale, evaluates the equation with every further value '
     'passed on under its own name, keeps for each sample the best point found so far and narrows that sample\'s own interval by parabola fits where these are usable and golden sections otherwise, '
     'never evaluates closer than the tolerance, and stops once every sample has settled within the tolerance or the step limit is reached, returning the best point of each sample.',
     ['inputs', 'histories'], 'every equation, target, bounds, precision and machine tolerance, for the first guess and up to four steps of the search, linear and decade scale, one and several samples',
     'Tests check a few end results of smooth functions, for which a wrong step still converges.',
     ['gerabaldi/math/minimize.py'], [('search', 'gerabaldi/math/minimize.py: minimize')], (), ['minimize'])
prop('C26', 'Logger configuration replaces only what was asked for',
     'Configuring the logger changes the level only when one is given, and a given stream or file handler replaces the existing handler of the same kind, if any, and no other.',
     ['configurations', 'histories'], 'every combination of arguments and of one existing stream and one existing file handler',
     'Tests do not configure handlers.',
     ['gerabaldi/helpers.py'], [('configuration', 'gerabaldi/helpers.py: configure_logger')], (), ['package logger'])
prop('C27', 'Per-sample evaluation gives each sample its own values',
     'When an equation cannot take arrays (it raises a value error) it is evaluated once per sample with every array argument, however nested, '
     'replaced by that sample\'s element and scalars passed on unchanged, and the results land at that sample; other errors are passed on and arguments are not modified.',
     ['inputs'], 'every equation, argument structure and lot/chip/device count',
     'Tests loop over one small array.',
     ['gerabaldi/helpers.py', M + 'devices.py'], [('loop', 'gerabaldi/helpers.py: _loop_compute'), ('fallback', M + 'devices.py: MechMdl.calc_deg_vals')], (), ['_loop_compute'])
prop('C28', 'Equations receive the right value for each of their arguments',
     'A user equation is called with exactly those of its named arguments that are known: mechanism time, the model\'s own latents first, then applied conditions, and for circuits '
     'then parameter values of the same devices; parameter equations get the initial value, condition shift and mechanism values by name. Missing equations behave as documented defaults.',
     ['inputs', 'programs'], 'every equation signature, and every overlap between latent, condition and parameter names',
     'Tests use equations whose names never overlap.',
     [M + 'devices.py'], [('binding', M + 'devices.py: MechMdl.calc_deg_vals'), ('binding', M + 'devices.py: CondShiftMdl.calc_cond_vals'), ('binding', M + 'devices.py: CircPrmMdl.calc_circ_vals')], (), ['arguments of user equations'])
prop('C29', 'Conditions are generated for exactly the quantities that use them',
     'The conditions reported as needed by a parameter in a step are exactly those its equations name, stress mechanisms for stress steps and the condition shift for '
     'measurements, or the circuit equation for circuit parameters.',
     ['inputs', 'programs'], 'every equation signature and condition list',
     'Tests list dependencies of one model.',
     [M + 'devices.py'], [('dependencies', M + 'devices.py: DegPrmMdl.get_dependencies'), ('dependencies', M + 'devices.py: CircPrmMdl')], (), ['get_dependencies'])
prop('C30', 'Components are found under the name they were given',
     'Looking up a parameter, mechanism, latent, variation model or instrument by name returns the very object registered under that name, whatever others were registered, and '
     'environments return neutral defaults for names without one.',
     ['inputs', 'configurations'], 'every set of distinct names',
     'Tests register one or two components.',
     [M + 'devices.py', M + 'phys_envs.py'], [('lookup', M + 'devices.py: DeviceMdl.prm_mdl'), ('lookup', M + 'phys_envs.py: PhysTestEnv.meas_instm')], (), ['lookups by name'])
prop('C31', 'Measured conditions report what was actually applied',
     'Measuring a condition gives one reading per requested sensor: the requested condition with the same batch draw the devices experience in that step and chip- and device-level draws of '
     'the sensor\'s own, read through the instrument of that name. Sensor rows carry the condition\'s name, time, step and value but no device, chip or lot number.',
     ['inputs', 'configurations'], 'every condition, environment, instrument and count',
     'Tests measure one ideal condition.',
     ['gerabaldi/sim.py', M + 'phys_envs.py', M + 'reports.py'], [('sensor rows', 'gerabaldi/sim.py: _sim_meas_step'), ('shared batch draw', M + 'phys_envs.py: PhysTestEnv.gen_env_cond_vals')], (), ['measurements of the report'])

NA = [
    ('C40', 'The equivalent-time search converges to the true equivalent time',
     'For every monotonic mechanism the equivalent time found reproduces the present degradation to within the stated precision.',
     ['inputs'], 'every mechanism equation and degradation value',
     'Depends on the numeric shape of user equations.', ['gerabaldi/math/minimize.py'], [('search', 'gerabaldi/math/minimize.py: minimize')],
     'convergence and precision depend on the numeric values and shape of arbitrary user equations; no static argument in reach bounds them'),
    ('C41', 'Samples follow the configured distributions',
     'Drawn latent, environmental and error values follow the configured probability distributions.',
     ['inputs'], 'every distribution and sample size', 'A statistical property of the random source.', [M + 'random_vars.py'], [('sampling', M + 'random_vars.py: RandomVar.sample')],
     'a statistical property of numpy\'s generators; statically only the arguments passed to them can be decided, which is C19'),
    ('C42', 'Results do not depend on the time unit a mechanism is written in',
     'Rewriting a mechanism in another time unit, with its equation adapted, leaves all simulated values unchanged.',
     ['configurations', 'programs'], 'every mechanism and unit', 'Quantifies over pairs of user equations.', [M + 'devices.py'], [('search range', M + 'devices.py: DegMechMdl.calc_equiv_strs_time')],
     'quantifies over pairs of user-written equations and numeric magnitudes (the search range and hold limit are fixed numbers in the mechanism\'s unit, so it fails at extreme scales); not decidable from the source'),
    ('C43', 'Simulations finish within bounded time and memory',
     'Every simulation of finitely many steps ends, using memory proportional to the number of samples.',
     ['inputs'], 'every test and model', 'Needs cost bounds of user code.', ['gerabaldi/sim.py'], [('simulation', 'gerabaldi/sim.py: simulate')],
     'running time and memory are dominated by user equations and array library internals, outside any static bound'),
]


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
        for id, title, st, over, text, why, files, mech, reason in NA:
            f.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
    note = ('For all inputs of the stated types: the gated value graph computed from the current source equals that of the stated expectation, under every '
            'branch outcome. Trusts the analyser, its models of builtins/numpy/pandas/datetime, and exact-rational reading of float arithmetic; user equations are '
            'uninterpreted. An obligation the analysis cannot settle after a change is reported as undecided, never as a violation.')
    checks = [{'property': p['id'], 'quick_cmd': f'python3 sa/run.py {p["id"]}', 'thorough_cmd': f'python3 sa/run.py {p["id"]} --tier thorough',
               'evidence_file': f'evidence/{p["id"]}.json', 'technique': 'static analysis: gated value-graph abstract interpretation of the source, compared with the stated expectation',
               'level': 'proof', 'level_note': note} for p in P]
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks,
           'not_applicable': [{'property': n[0], 'reason': n[-1]} for n in NA],
           'notes': 'No hooks in /repo. Fixes made there are listed in known_findings.json and DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
