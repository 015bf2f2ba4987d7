"""Writes properties.jsonl and MANIFEST.json (run in /verif)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = 'auxi/tools/chemistry/'
MM = 'auxi/modelling/process/materials/'
BU = 'auxi/modelling/business/'
FI = 'auxi/modelling/financial/'
PP = 'auxi/tools/materialphysicalproperties/'
TP = 'auxi/tools/transportphenomena/'
HT = TP + 'heattransfer/'

P = []


def p(id, title, statement, over, text, why, files, mech, observe,
      state=(), technique='', note=''):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(
                      files=files,
                      state=[dict(name=a, meaning=b, where=c)
                             for a, b, c in state],
                      mechanism=[dict(name=a, where=b) for a, b in mech],
                      observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


p('C01', 'Chemical formulas are read as what they say',
  'Every valid formula (nested groups, any subscripts, dotted parts '
  'with multipliers, phase suffix) is understood as exactly the elements and '
  'counts it denotes, so that molar masses and coefficients follow from it '
  'and the atomic masses. Invalid text is refused, and no answer depends on '
  'what was asked before.',
  ['inputs', 'histories'], 'all formula texts, and all sequences of '
  'questions about them',
  'The tests ask about a handful of formulas; a formula is any nesting and '
  'the answers are memoised, so mistakes hide in combinations and in the '
  'order of questions.',
  [CH + 'stoichiometry.py'],
  [('grammar, visitor and group multiplication', CH + 'stoichiometry.py '
    'parse_compound, CompoundVisitor, count_with_multiplier'),
   ('memo of coefficients', CH + 'stoichiometry.py')],
  ['stoichiometry.molar_mass', 'stoichiometry_coefficient(s)', 'elements',
   'element_mass_fraction(s)'],
  technique='runtime monitor: generated formulas with known composition, '
  'independent reader as oracle over query histories')

p('C02', 'Masses, amounts and fractions convert consistently',
  'Converting between masses and amounts of compounds follows their molar '
  'masses and is undone by the reverse conversion; fractions add up to one '
  'and do not depend on scale. Converting a mass of one compound into '
  'another via an element keeps the amount of that element.',
  ['inputs'], 'all sets of compounds and masses or amounts',
  'The tests convert a few fixed masses; round trips and conservation are '
  'over all compounds and values.',
  [CH + 'stoichiometry.py'],
  [('amount, mass, amounts, masses, amount_fractions, mass_fractions, '
    'convert_compound', CH + 'stoichiometry.py')],
  ['return values of the conversion functions', 'their unchanged arguments'],
  technique='runtime monitor: reference composition and round-trip oracles '
  'over random sets of compounds')

p('C03', 'Constants are those of nature, agree with one another and stay',
  'The physical constants are the defined or CODATA 2018 values they are '
  'quoted from, satisfy the relations between them (R = k N, h-bar = h / 2 '
  'pi, Stefan-Boltzmann, Faraday, one atomic mass constant is a gram per '
  'mole), and are the ones in every result that depends on them, whatever '
  'was calculated before.',
  ['inputs', 'histories'], 'all constants and all computations that use '
  'them', 'No test looks at the constants; a wrong digit shifts every '
  'result alike, and so the tests that use the same constant agree.',
  ['auxi/tools/physicalconstants.py', PP + 'idealgas.py',
   TP + 'dimensionlessquantities.py'],
  [('constants', 'auxi/tools/physicalconstants.py')],
  ['physicalconstants', 'idealgas.RhoT, RhoTP', 'Ra'],
  technique='runtime monitor: definitions and relations as oracle, among '
  'random use of the library')

p('T01', 'Cp, H, S and G of a compound agree with each other',
  'For every phase and temperature the enthalpy and entropy are the '
  'reference value plus the integral of the heat capacity (and of the '
  'heat capacity over temperature) with the magnetic part included, the '
  'Gibbs energy is H minus T times S, and all scale with mass.',
  ['inputs', 'configurations'], 'all phases of the shipped data and all '
  'valid compounds; all temperatures below, between, on the joints of and '
  'above the heat capacity ranges',
  'The tests compare a few values of a few phases with stored numbers; '
  'range joints, extrapolation and magnetic terms are not sampled.',
  [CH + 'thermochemistry.py'],
  [('piecewise integration', CH + 'thermochemistry.py CpRecord.H/S, '
    'Phase.Cp/H/S/G'), ('magnetic terms', CH + 'thermochemistry.py '
    'Phase.Cp_mag/H_mag/S_mag/G_mag')],
  ['thermochemistry.Cp', 'H', 'S', 'G'],
  technique='runtime monitor: numerical quadrature of the heat capacity as '
  'oracle')

p('T02', 'Thermochemical data survive writing, loading and conversion',
  'A compound written to file and loaded back gives the same properties at '
  'every temperature, and a FactSage listing yields the compounds it '
  'describes. Loading a data set replaces the previous one completely, and '
  'a load that fails leaves the previous one as it was.',
  ['inputs', 'histories', 'configurations'], 'all compounds, all listings '
  'of compounds, all sequences of loading data sets',
  'The tests load the shipped files only and look at few values; loss in '
  'conversion depends on number of ranges, terms and phases.',
  [CH + 'thermochemistry.py', 'auxi/core/objects.py'],
  [('write_compound_to_auxi_file, load_data_auxi, load_data_factsage',
    CH + 'thermochemistry.py')],
  ['thermochemistry.Cp/H/S/G', 'list_compounds', 'files written'],
  state=[('compounds', 'the loaded data set', CH + 'thermochemistry.py')],
  technique='runtime monitor: round-trip and generated-listing oracles over '
  'load histories')

MAT = ('The tests perform each operation once on fixed assays; balances must '
       'hold through any sequence of sums, products, extractions and changes '
       'of several live packages, and operations must not touch other '
       'packages.')
for i, kind, f, what in (
        ('M01', 'Chemical packages', 'chem.py', 'the mass of each compound'),
        ('M02', 'Particle size packages', 'psd.py',
         'the mass of each size class'),
        ('M03', 'Slurry packages', 'slurry.py',
         'the mass of each size class, of the water, and the volume of '
         'solids and water')):
    p(i, kind + ' conserve mass through any history',
      'Adding, scaling, cloning, clearing and extracting conserve %s '
      'exactly as the operation says: what leaves one package is in the '
      'other, nothing is created or lost, and packages that take no part '
      'are untouched. A refused operation changes nothing.' % what,
      ['histories', 'inputs'], 'all sequences of operations over packages '
      'of the same and of different materials', MAT,
      [MM + f],
      [('__add__, __mul__, extract, add_to, clone, clear', MM + f +
        ' MaterialPackage')],
      ['get_mass', 'get_compound_mass / get_size_class_mass', 'get_assay'],
      technique='runtime monitor: reference model of every live package '
      'compared after each operation of random histories')
for i, kind, q in (('M04', 'Thermochemical packages', 'mass'),
                   ('M05', 'Thermochemical streams', 'mass flow rate')):
    p(i, kind + ' conserve mass and energy through any history',
      'Adding, scaling, cloning, clearing and extracting conserve the %s of '
      'each compound and the enthalpy; temperature, pressure and enthalpy '
      'stay consistent with one another however the state is set. Packages '
      'or streams that take no part are untouched, and a refused operation '
      'changes nothing.' % q,
      ['histories', 'inputs'], 'all sequences of operations, temperatures '
      'and pressures', MAT,
      [MM + 'thermo.py'],
      [('__add__, __mul__, extract, H/T/P setters, enthalpy and temperature '
        'calculation', MM + 'thermo.py')],
      ['H / Hfr', 'T', 'P', 'mass / mfr', 'get_compound_mass / _mfr'],
      technique='runtime monitor: mass and energy model of every live object '
      'compared after each operation of random histories')

p('M06', 'Material files become exactly the assays they describe',
  'A material read from a definition file has exactly the compounds or size '
  'classes, assays and custom properties written in it, whatever the order '
  'and white space, and a file that does not describe one is refused; '
  'packages made from an assay have its proportions and the requested mass, '
  'normalised only if asked. Materials do not change '
  'when packages do.',
  ['inputs', 'configurations'], 'all definition files and assays',
  'The tests read three shipped files; the reading depends on number of '
  'rows, columns, blank lines and added assays.',
  [MM + f for f in ('chem.py', 'psd.py', 'slurry.py', 'thermo.py')],
  [('file reading, add_assay, create_package, create_stream', MM)],
  ['converted assays', 'created packages', 'get_assay_total',
   'get_compound_index'],
  technique='runtime monitor: generated definition files with known content '
  'as oracle')

p('M07', 'Element and amount balances follow from the compounds',
  'The element masses and amounts of a package or stream are those of its '
  'compounds, add up to its mass, and are conserved when it is split, '
  'summed or when a mass is converted.',
  ['inputs', 'histories'], 'all packages and streams of all compounds',
  'The tests look at one ilmenite; the balances are over all compounds, '
  'selections of elements and operations.',
  [MM + 'chem.py', MM + 'thermo.py', CH + 'stoichiometry.py'],
  [('get_element_mass(es), get_compound_amount(s), get_element_mfr(s)',
    MM + 'chem.py, thermo.py'), ('element_mass_fractions',
    CH + 'stoichiometry.py')],
  ['get_element_masses', 'get_element_mass_dictionary', 'amount', 'afr'],
  technique='runtime monitor: independent formula reader and atomic mass '
  'table as oracle')

p('M08', 'Coal streams keep their mass, energy and heating value',
  'Scaling, splitting, joining and heating a coal stream conserve its '
  'masses, its enthalpy and its total heating value; adding or removing a '
  'compound changes them by what that compound carries. A coal stays a coal.',
  ['histories', 'inputs'], 'all coals, with and without a measured heating '
  'value, and all sequences of operations',
  'The tests create one coal and look at its enthalpy once.',
  [MM + 'thermo.py', PP + 'coals.py'],
  [('heat of formation from the heating value, heating value update',
    MM + 'thermo.py MaterialStream'), ('ash-free coal enthalpy',
    PP + 'coals.py')],
  ['HHV', 'Hfr', 'T', 'get_compound_mfr', 'isCoal'],
  technique='runtime monitor: combustion balance model over random histories',
  note='known finding: packages (not streams) of coal cannot be created')

p('F01', 'The account tree keeps its shape, paths and types',
  'After any sequence of creating, renaming and removing accounts every '
  'account has the path its ancestors and name give it, the type of its top '
  'level account, and is found by exactly that path; descendants, '
  'validation and the account report list exactly the accounts that exist.',
  ['histories', 'inputs'], 'all sequences of changes to the account '
  'structure', 'The tests make one or two accounts; paths must follow '
  'renames at any depth and names may be prefixes of one another.',
  [FI + 'des.py', FI + 'reporting.py'],
  [('parent path propagation, get_account, get_account_descendants, '
    'validate_account_names', FI + 'des.py')],
  ['path', 'get_account', 'get_account_descendants', 'report'],
  technique='runtime monitor: tree model compared after every step of random '
  'histories')

p('F02', 'Transaction lists show exactly the recorded transactions',
  'The transaction list of a period and component holds each transaction '
  'recorded for it exactly once, in order of date, with its accounts and '
  'amount, and no other. Listing changes nothing.',
  ['inputs', 'histories'], 'all ledgers, periods and components',
  'The tests list one small ledger; selection depends on the limits, on '
  'equal and mixed dates and on similarly named components.',
  [FI + 'des.py', FI + 'reporting.py', 'auxi/core/reporting.py'],
  [('period and component filter, ordering', FI + 'reporting.py '
    'TransactionList')],
  ['GeneralLedger.transaction_list'],
  technique='runtime monitor: offline comparison of the report with the '
  'recorded transaction log')

p('F03', 'Balance sheet and income statement agree with double entry',
  'Every line of both statements is the sum of debits and credits recorded '
  'for that account in the period, totals are the sums of their lines, and '
  'assets equal liabilities plus equity plus the undistributed income. '
  'No posting is counted twice or left out.',
  ['inputs', 'histories'], 'all ledgers over all account types, all periods '
  'and components', 'The tests compare one ledger with stored text; signs '
  'depend on type of account, side and order of the first posting.',
  [FI + 'des.py', FI + 'reporting.py'],
  [('summing per account and sign by type', FI + 'reporting.py '
    'BalanceSheet, IncomeStatement')],
  ['GeneralLedger.balance_sheet', 'GeneralLedger.income_statement'],
  technique='runtime monitor: exact double entry reference over random '
  'ledgers')

p('R01', 'A report says the same in every format',
  'Text, comma separated, LaTeX, printed and file output of a report hold '
  'the same cells with the same values, whatever characters they contain, '
  'and a file holds just that report.',
  ['inputs', 'configurations'], 'all reports, formats and destinations',
  'The tests render a few tables and compare with nothing.',
  ['auxi/core/reporting.py', FI + 'reporting.py'],
  [('rendering', 'auxi/core/reporting.py Report.render')],
  ['returned text', 'standard output', 'files written'],
  technique='runtime monitor: cells parsed back from every format and '
  'compared')

p('R02', 'What an object prints about itself is what it answers',
  'The printed form of a material, package, stream, compound phase or data '
  'set lists every compound or size class once and every assay under its own '
  'name, and each number is the one the object answers for that quantity, '
  'in any state of the object, empty, mixed, coal with or without heating '
  'value. Printing changes nothing.',
  ['inputs', 'histories'], 'all materials and packages after any history',
  'No test looks at what is printed.',
  [MM + 'chem.py', MM + 'psd.py', MM + 'slurry.py', MM + 'thermo.py',
   'auxi/tools/chemistry/thermochemistry.py', PP + 'core.py'],
  [('printed forms', MM + 'thermo.py MaterialPackage.__str__')],
  ['str', 'hash'],
  technique='runtime monitor: the text read back and compared with the '
  'public interface')

p('R03', 'Plots show the data and the model, and nothing else',
  'The plot of a property model contains exactly the points of the data '
  'sets it was given and a curve that is the model over the range of the '
  'data where it holds, whatever other figures are open and whatever was '
  'plotted, or failed to be, before; other figures are not touched. Regions '
  'of surface configurations are drawn where they apply.',
  ['inputs', 'histories'], 'all models, data sets and sequences of plots',
  'The tests plot one model and look at nothing.',
  [PP + 'polynomial.py', PP + 'idealgas.py', PP + 'gases.py',
   HT + 'naturalconvection.py'],
  [('plot', PP + 'polynomial.py PolynomialModelT.plot'),
   ('plot_regions', HT + 'naturalconvection.py')],
  ['figures saved', 'figures open'],
  technique='runtime monitor: hook on the figure being saved, its artists '
  'compared with data and model')

p('K01', 'The clock follows the calendar',
  'After any number of ticks a clock shows the start plus that many '
  'periods, months and years counted by the calendar (clamped at month ends) '
  'and never drifting; dates strictly increase with the period and a reset '
  'returns to the start.',
  ['inputs', 'histories'], 'all starts, period lengths and indices',
  'The tests tick a few clocks from one start; month ends, leap days and '
  'long horizons are not sampled.',
  ['auxi/core/time.py'],
  [('get_datetime_at_period_ix', 'auxi/core/time.py Clock')],
  ['Clock.get_datetime', 'get_datetime_at_period_ix', 'timestep_ix'],
  technique='runtime monitor: independent calendar arithmetic as oracle',
  note='known finding: the number of periods per step is ignored')

p('B01', 'Activities post exactly what and when they are scheduled to',
  'Running a model posts one transaction for each activity in each period '
  'its start, end and interval select, with its accounts, amount and date, '
  'and none in any other period. Running again after a change follows the '
  'changed schedule.',
  ['inputs', 'histories', 'schedules'], 'all models, horizons, schedules of '
  'activities and sequences of runs',
  'The tests run one or two schedules; off-by-one errors show for starts '
  'and ends at, between and outside the period dates.',
  [BU + 'structure.py', BU + 'basic.py', BU + 'models.py'],
  [('start and end to period indices, execution criteria',
    BU + 'structure.py Activity.prepare_to_run, ' + BU + 'basic.py '
    'BasicActivity')],
  ['GeneralLedger.transactions after TimeBasedModel.run'],
  technique='runtime monitor: posting log compared with an independent '
  'schedule')

p('B02', 'Loans amortise exactly',
  'A loan posts its amount once, then interest on the outstanding balance '
  'and a constant payment each month until it is repaid, so that the loan '
  'account ends at zero after its duration. Zero interest, horizons shorter '
  'than the loan, and repeated runs follow the same schedule.',
  ['inputs', 'histories'], 'all amounts, rates, durations, starts and '
  'horizons', 'The tests check a single loan and few postings.',
  [BU + 'basic.py', BU + 'structure.py'],
  [('monthly payment, outstanding balance', BU + 'basic.py '
    'BasicLoanActivity')],
  ['GeneralLedger.transactions', 'monthly_payment'],
  technique='runtime monitor: posting log compared with an exact rational '
  'amortisation schedule')

p('B03', 'The financial year end closes each year completely',
  'At each year end every income and expense account with movement in that '
  'year is closed once, for the amount of its movement, and the net income '
  'of the year after tax goes to retained earnings. Years are neither '
  'skipped nor closed twice.',
  ['histories', 'inputs'], 'all models over several years and all '
  'transactions in them', 'The tests run one year end with few accounts.',
  [BU + 'structure.py', FI + 'des.py', FI + 'reporting.py'],
  [('year end procedure', BU + 'structure.py Entity._perform_year_end_*')],
  ['GeneralLedger.transactions', 'income statement of the year'],
  technique='runtime monitor: closing postings compared with exact sums of '
  'the posting log',
  note='known findings: sales and cost of sales closed the wrong way, losses '
  'posted as negative debits')

p('B04', 'The business structure keeps its shape and runs all of it',
  'After any sequence of creating, renaming, adding and removing, every '
  'entity, component and activity has the path its ancestors and name give '
  'it and is found there, and a run reaches every activity present exactly '
  'once per period and nothing that was removed. An activity referring to '
  'missing accounts is refused.',
  ['histories'], 'all sequences of changes and runs',
  'The tests build one or two levels; paths must follow renames at any '
  'depth, and runs must follow changes.',
  [BU + 'structure.py', BU + 'models.py'],
  [('parent path propagation, prepare_to_run, run', BU + 'structure.py, '
    'models.py')],
  ['path', 'look-ups', 'calls of the activities'],
  technique='runtime monitor: tree model and call recorder over random '
  'histories')

p('B05', 'The books of a business model follow from its plan',
  'After a run the ledger of every entity holds exactly the transactions its '
  'activities and loans were planned to make and the closings of its '
  'finished years, and its lists and statements, of any period and any '
  'component, are their sums. Entities do not influence one another, also '
  'when they share an account structure, and a model that was changed and '
  'run again has the books of the changed plan.',
  ['inputs', 'histories'], 'all models with activities and loans on shared '
  'accounts, and sequences of changes and runs',
  'The tests run parts of a model; the books come from activities, loans, '
  'year ends and reports together.',
  [BU + 'structure.py', BU + 'basic.py', BU + 'models.py', FI + 'des.py',
   FI + 'reporting.py'],
  [('run of model, entity and component', BU + 'structure.py, models.py'),
   ('activities and loans', BU + 'basic.py'),
   ('year end', BU + 'structure.py Entity._perform_year_end_procedure'),
   ('statements and lists', FI + 'reporting.py')],
  ['GeneralLedger.transactions', 'transaction_list', 'balance_sheet',
   'income_statement'],
  technique='runtime monitor: ledger and reports of whole models against '
  'the plan, exact double entry sums')

p('O01', 'Objects written to a file are read back the same',
  'A clock, account structure, ledger, business model, material, package, '
  'stream or compound read back from its file is described by the same '
  'text, shares its parts in the same way, and behaves the same in all '
  'operations that follow. The original is unaffected, and a write that '
  'fails leaves the file as it was.',
  ['inputs', 'histories'], 'all objects, in any state, and operations on '
  'the copy', 'The tests write one trivial object; references, cycles and '
  'arrays only occur in real ones.',
  ['auxi/core/objects.py'],
  [('write, read, text form', 'auxi/core/objects.py Object')],
  ['str', 'hash', 'behaviour of the copy', 'file content'],
  technique='runtime monitor: round trips with differential execution of '
  'original and copy')

p('O02', 'References, variables and process models keep what they are given',
  'A bibliography gives back every field of every entry of its file, of any '
  'type, and refuses keys it does not have. Variables and projects keep '
  'their name, description, value, units and category, also through a file. '
  'Each process model owns parameters and variables of the classes its class '
  'declares, shared with no other model.',
  ['inputs', 'histories', 'configurations'], 'all bibliography files, '
  'variables and model classes', 'The tests read one entry of one file.',
  ['auxi/core/bibliography.py', 'auxi/core/helpers.py',
   'auxi/modelling/core.py', 'auxi/modelling/process/core.py'],
  [('Database', 'auxi/core/bibliography.py'),
   ('Variable', 'auxi/modelling/core.py'),
   ('Model', 'auxi/modelling/process/core.py')],
  ['entries', 'attributes', 'values'],
  technique='runtime monitor: independent reading of the file and a model of '
  'every live object')

p('O03', 'Surroundings and past leave answers, and answers the host, alone',
  'The same questions get the same answers, texts and refusals in any '
  'process: whatever was asked before, whatever the order in which modules '
  'were imported, and whatever the working directory, locale, time zone, '
  'hash seed and optimisation level of the interpreter; defaults are filled '
  'in when the call is made. Importing and using auxi leaves the host program '
  'alone: its directory and files, environment, locale, numeric error handling '
  'and number format, random generators, warnings and plot settings, and it '
  'prints nothing.',
  ['configurations', 'histories'], 'all surroundings, import orders and '
  'earlier questions', 'The tests run in one process with one environment.',
  ['auxi/core/bibliography.py', CH + 'thermochemistry.py', PP + 'core.py',
   BU + 'models.py'],
  [('get_datafile_references', CH + 'thermochemistry.py'),
   ('DataSet', PP + 'core.py'), ('TimeBasedModel', BU + 'models.py')],
  ['all public functions, in processes of their own'],
  technique='runtime monitor: differential replay of random work in fresh '
  'processes with perturbed environments')

p('O04', 'Threads at work at the same time do not disturb each other',
  'Calculations made in several threads at the same time give the answers, '
  'texts and refusals that each gives alone, whatever the order in which the '
  'threads get their turns, provided that each thread changes only objects '
  'of its own: formulas, compounds, materials and property models, those '
  'that belong to auxi included, may be asked by all of them at once, and '
  'packages, ledgers, business models, clocks and data sets of one thread '
  'leave those of the others alone.',
  ['schedules', 'inputs'], 'all interleavings of threads and all work',
  'The tests have one thread.',
  [CH + 'stoichiometry.py', CH + 'thermochemistry.py', PP + 'core.py',
   PP + 'gases.py', MM + 'thermo.py', FI + 'des.py', BU + 'models.py'],
  [('parse_compound', CH + 'stoichiometry.py'), ('Model', PP + 'core.py'),
   ('TimeBasedModel', BU + 'models.py')],
  ['all calculations, asked in threads'],
  technique='runtime monitor: threads under a seeded scheduler with points '
  'to hand over at every statement, compared with the work done alone')

p('O05', 'What fails or is interrupted leaves no trace',
  'A question, a sum, product or copy of packages, a fit, a report, a file '
  'written or read, or a run of a business model that is stopped half-way, by '
  'an exception or an interrupt at any point or by a file that cannot be '
  'opened, written or read, either answers as it should or raises; and when '
  'it is asked again, and in everything that follows, the answers are those '
  'there would be without it: its operands, shared materials, models and '
  'data, the settings of the process and its open files are as they were.',
  ['faults', 'crash points', 'inputs'], 'all points at which to be stopped '
  'and all work', 'The tests let everything end well.',
  [CH + 'stoichiometry.py', CH + 'thermochemistry.py', PP + 'core.py',
   PP + 'polynomial.py', MM + 'thermo.py', 'auxi/core/reporting.py',
   FI + 'reporting.py', BU + 'models.py', 'auxi/core/time.py'],
  [('Report', 'auxi/core/reporting.py'), ('Clock', 'auxi/core/time.py'),
   ('TimeBasedModel', BU + 'models.py')],
  ['all questions, reports, files and runs'],
  technique='runtime monitor: exceptions injected at statements of auxi and '
  'in files, compared with the work done without')

p('D01', 'Dimensionless numbers are dimensionless and consistent',
  'Each dimensionless number equals its definition, does not change with '
  'the system of units, and the numbers agree with each other (Rayleigh is '
  'Grashof times Prandtl).',
  ['inputs'], 'all physical states', 'The tests evaluate each at one point.',
  [TP + 'dimensionlessquantities.py'],
  [('definitions', TP + 'dimensionlessquantities.py')],
  ['Gr, Pr, Re, Ra, Nu, Sh'],
  technique='runtime monitor: definition and unit-change oracles')

p('D02', 'Friction factors and pressure drops obey their equations',
  'Friction factors satisfy the laminar law, the smooth and the explicit '
  'and implicit rough duct equations, agree where those describe the same '
  'flow, and pressure drop and hydraulic diameter follow the momentum '
  'balance; questions outside the range are announced.',
  ['inputs'], 'all Reynolds numbers, roughnesses and ducts',
  'No test covers the module.',
  [TP + 'fluidflow/pressuredrop.py'],
  [('friction factor correlations', TP + 'fluidflow/pressuredrop.py')],
  ['f_l', 'f_ts', 'f_tr_Haaland', 'f_tr_Colebrook', 'D_h', 'Δp'],
  technique='runtime monitor: bisection and relation oracles')

p('D03', 'Natural convection uses the right correlation everywhere',
  'For every inclination and every Rayleigh number in range exactly the '
  'correlation that applies there is used, with fluid properties at the '
  'film temperature, and the mean heat transfer is that of its correlation; '
  'outside the range the question is refused.',
  ['inputs', 'configurations'], 'all surfaces, inclinations, temperatures '
  'and fluids', 'The tests look at a few points away from the region '
  'boundaries.',
  [TP + 'heattransfer/naturalconvection.py'],
  [('regions and correlations', TP + 'heattransfer/naturalconvection.py '
    'IsothermalFlatSurface')],
  ['Nu_x', 'Nu_L', 'h_x', 'h_L', 'questions asked of the fluid'],
  technique='runtime monitor: stub fluids recording every property request, '
  'independent correlations as oracle')

p('P01', 'Fitted property models are the least squares fit of their data',
  'A model fitted to a data set reproduces exact data over the whole range, '
  'is the least squares fit of scattered data, uses only the column of its '
  'own property, and refuses temperatures outside the data. The shipped '
  'models follow their data sets.',
  ['inputs', 'configurations'], 'all data sets, properties, degrees and '
  'temperatures', 'The tests evaluate shipped models at single points.',
  [PP + 'polynomial.py', PP + 'core.py'],
  [('fit and range check', PP + 'polynomial.py PolynomialModelT'),
   ('data set reading', PP + 'core.py DataSet')],
  ['calculate', 'model call'],
  technique='runtime monitor: generated data sets and orthogonality of '
  'residuals as oracle')

p('P02', 'Ideal gas models obey the ideal gas law',
  'Density follows pressure, molar mass and temperature in all ideal gas '
  'models and they agree with each other; mixtures have the mean molar '
  'mass, and the expansion coefficient is the slope of the density.',
  ['inputs'], 'all states and compositions', 'The tests evaluate single '
  'points.', [PP + 'idealgas.py'],
  [('RhoT, RhoTP, RhoTPx, BetaT', PP + 'idealgas.py')], ['calculate'],
  technique='runtime monitor: gas law and cross-model oracles')

p('P03', 'Property models check their state and have no memory',
  'A property model refuses a state with a missing, unknown, mistyped or '
  'out-of-range value, and otherwise gives the same finite number however '
  'often and after whatever else it is asked. It never changes the state it '
  'is given.',
  ['inputs', 'histories'], 'all models and states, in any order',
  'The tests call each model once with a valid state.',
  [PP + f for f in ('core.py', 'gases.py', 'slags.py', 'coals.py',
                    'idealgas.py')],
  [('state schema and validation', PP + 'core.py Model')],
  ['model call', 'calculate'],
  technique='runtime monitor: spoilt states and repeated questions in random '
  'order')

p('P04', 'Gas mixture models follow their mixture rules',
  'Viscosity and heat capacity of a gas mixture are those of the mixture '
  'rule applied to the pure gases: equal to the pure gas at the pure limit, '
  'independent of the order of components, and within the rule for every '
  'composition and temperature.',
  ['inputs'], 'all mixtures of the known gases and temperatures',
  'The tests evaluate one mixture each.', [PP + 'gases.py'],
  [('WilkeMuTx, HerningZippererMuTx, IdealCpTx', PP + 'gases.py')],
  ['calculate'],
  technique='runtime monitor: independent mixture rules and limits as oracle')

p('P05', 'Slag viscosities follow their correlations',
  'Slag viscosity is that of the named correlation for every composition '
  'and temperature, is the same whether the composition is given in mole or '
  'mass fractions, and falls with temperature.',
  ['inputs', 'histories'], 'all slags and temperatures, in any order of '
  'questions', 'The tests evaluate one slag each.', [PP + 'slags.py'],
  [('Urbain and Riboud models', PP + 'slags.py')], ['calculate'],
  technique='runtime monitor: independent evaluation of the equations as '
  'oracle')

p('P06', 'Coal heat capacity is the slope of its enthalpy',
  'Heat capacity and enthalpy of dry ash-free coal are consistent with each '
  'other at every temperature, reach the classical limit, and depend on '
  'composition only through its atoms.',
  ['inputs'], 'all compositions and temperatures',
  'The tests evaluate one coal.', [PP + 'coals.py'],
  [('Einstein terms', PP + 'coals.py DafCpTy, DafHTy')], ['calculate'],
  technique='runtime monitor: numerical derivative and independent '
  'evaluation as oracle')

p('P07', 'Materials answer each property with their own model',
  'A material composed of property models answers each property with the '
  'model given for it, derives diffusivity and kinematic viscosity when '
  'they have none, refuses properties it has no model for, and shares '
  'nothing with other materials. The shipped gases and water are consistent '
  'in this way.',
  ['inputs', 'configurations'], 'all combinations of models, states and '
  'live materials', 'The tests create one material.',
  [MM + 'core.py', PP + 'gases.py', PP + 'liquids.py'],
  [('Material', MM + 'core.py')],
  ['alpha, beta, Cp, k, mu, nu, rho'],
  technique='runtime monitor: recording stub models and derivation oracles')

p('P08', 'The shipped fluids describe what their data sets say',
  'Each shipped gas, and water, gives at every temperature of its data set '
  'properties that lie between the neighbouring data, apart from the scatter '
  'of a fit; the columns of a data set are numbers that agree with one '
  'another (diffusivity, kinematic viscosity, Prandtl number); a model '
  'fitted to the data again is the shipped one; and the gases obey the gas '
  'law with their own molar mass and have the heat capacity that the '
  'thermochemical data give.',
  ['inputs'], 'all shipped fluids, properties and temperatures of their data',
  'The tests look at one temperature of each fluid.',
  [PP + 'gases.py', PP + 'liquids.py', PP + 'core.py', PP + 'polynomial.py'],
  [('_create_air', PP + 'gases.py'), ('h2o_dict', PP + 'liquids.py'),
   ('DataSet', PP + 'core.py')],
  ['alpha, beta, Cp, k, mu, nu, rho of gases.materials and liquids.h2o'],
  technique='runtime monitor: data sets, gas law and thermochemical data as '
  'oracles')

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['prop']['title']) <= 80, x['prop']['id']
            f.write(json.dumps(x['prop'], ensure_ascii=False) + '\n')
    man = dict(
        version=1, setup_cmd='true',
        hooks=dict(guard='AUXI_RT_HOOKS', enable='not used: every monitor '
                   'observes the public interface, no hook was needed',
                   source_commits=[]),
        checks=[dict(
            property=x['prop']['id'],
            quick_cmd='./check %s' % x['prop']['id'],
            thorough_cmd='./check %s --tier thorough' % x['prop']['id'],
            evidence_file='evidence/%s.json' % x['prop']['id'],
            technique=x['technique'], level='exploration',
            level_note=('Held on the executions of the seeded workload, '
                        'which the evidence file counts; nothing is claimed '
                        'for others.' + (' ' + x['note'][0].upper() +
                                         x['note'][1:] + '.'
                                         if x['note'] else '')))
            for x in P],
        not_applicable=[],
        notes='Runtime monitoring of the real code from outside; see '
              'DESIGN.md. Findings and repairs: known_findings.txt.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
