"""Writes properties.jsonl (the statements live here, one block each)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over.split(), 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['forecaster/' + f for f in files.split()],
                          'mechanism': [{'name': n, 'where': 'forecaster/' + w} for n, w in mech]}})


prop('C01', 'Advancing a year records every tracked figure, then moves one year',
     'Whenever a person, account or forecast is advanced to the next year, the value each of its tracked figures had in the ending year is kept in that figure\'s history, for every tracked figure including those added by specialised kinds, and a figure that is already on record is kept as it is. '
     'Recording happens before any of the year\'s working state is cleared, and the current year moves forward by exactly one. '
     'The history of a figure shows all recorded years plus the current one.',
     'histories programs', 'every sequence of year advances, on every kind of object that tracks figures, present or added later',
     'tests advance a few sample objects by a year or two; a figure left out, recorded after clearing, or a specialised kind that skips the base step shows only for the kinds and figures a test happens to read',
     'ledger/base.py ledger/recorded_property.py accounts/base.py forecast/subforecast.py forecast/base.py forecast/withdrawal.py canada/accounts/registered_account.py',
     [('Ledger.next_year records then increments', 'ledger/base.py'), ('LedgerType registers every tracked figure', 'ledger/base.py'),
      ('overrides of next_year call the base step', 'accounts/base.py')])
prop('C02', 'Figures the user supplies are never overridden or discarded',
     'A figure the user supplied for some year is what the object reports for that year: assigning, deleting, clearing caches or advancing years never replaces or removes it. '
     'The table the user passed in is never altered, and later changes to it do not leak into the record.',
     'inputs histories', 'every user-supplied table, for every tracked figure and year, and every later sequence of assignments, deletions and year advances',
     'tests supply inputs for one figure of a sample ledger class; the guarantee is for every figure of every kind and every later operation',
     'ledger/recorded_property.py ledger/base.py canada/accounts/taxable_account.py canada/accounts/registered_account.py',
     [('setter and deleter check the inputs first', 'ledger/recorded_property.py'), ('inputs are copied into the history', 'ledger/base.py')])
prop('C03', 'What has been recorded for a past year never changes',
     'Once a year has ended, nothing that happens later - bookings, undoing, clearing, assigning, reading histories or planning - alters what is on record for it. '
     'In particular an object placed on record is not afterwards emptied or reused for the new year, and asking for a history does not write figures of other years.',
     'histories', 'every sequence of operations after a year has ended',
     'aliasing between a record and live state only shows when a test re-reads old years after later operations; few tests do',
     'ledger/recorded_property.py accounts/base.py forecast/subforecast.py canada/accounts/taxable_account.py',
     [('Account.next_year starts a new transactions table', 'accounts/base.py'), ('SubForecast.next_year starts a new transactions table', 'forecast/subforecast.py'),
      ('setter/deleter/history only write the current year', 'ledger/recorded_property.py')])
prop('C04', 'Cached figures are dropped when what they depend on changes',
     'A figure that an account or a forecast step caches for the current year is dropped when that account\'s or step\'s own state is changed through the public operations: booking, replacing or removing a transaction of a taxable account, undoing or re-running the step, or assigning a new value. '
     'After clearing caches every cached figure is computed afresh, and a figure that is not cached is always computed from the current state.',
     'histories', 'every interleaving of reading figures and changing the state they depend on',
     'a stale cache needs read-change-read sequences for the particular figure and the particular way of changing state',
     'ledger/base.py ledger/recorded_property.py forecast/subforecast.py canada/accounts/taxable_account.py person.py utility/precision.py',
     [('Ledger.clear_cache', 'ledger/base.py'), ('SubForecast.undo_transactions', 'forecast/subforecast.py'), ('TaxableAccount invalidation', 'canada/accounts/taxable_account.py'),
      ('converted-value cache', 'utility/precision.py')])
prop('C05', 'Every forecast year runs its five steps once, in order',
     'For every year of the scenario, first and last included, the forecast performs income, living expenses, saving, withdrawal and tax exactly once, in that order, all on the same pool of available money. '
     'Between consecutive years, and only there, it advances by one year.',
     'configurations inputs', 'every scenario length and start year, and every set of steps supplied',
     'tests use two- and three-year scenarios with stub steps; an off-by-one at the ends or a step reading another pool depends on length and wiring',
     'forecast/base.py', [('Forecast.__init__ loop', 'forecast/base.py'), ('Forecast.call_subforecasts', 'forecast/base.py')])
prop('C06', 'At year end everything advances once and money owed carries over',
     'When the forecast moves to a new year, every step, person, asset and debt is advanced to that same year, no sooner and no further, after the ending year\'s figures were recorded. '
     'The pool of available money is then emptied and refilled with exactly the total left over at the start of the year plus last year\'s tax adjustment - a refund as money in at the refund timing, a balance owing as money out at the payment timing. '
     'Per-year tallies such as tax withheld restart from zero.',
     'histories configurations', 'every number of years, every mixture of people, assets and debts (also shared between them), every sign of the tax adjustment',
     'stub-based tests check one refund and one payment; missing objects, double advances and ordering against recording need specific combinations',
     'forecast/base.py forecast/subforecast.py forecast/withdrawal.py accounts/base.py canada/accounts/registered_account.py',
     [('Forecast.next_year', 'forecast/base.py'), ('carry-over helpers', 'forecast/base.py'), ('Account.next_year advances its owner', 'accounts/base.py')])
prop('C07', 'Every movement of money is booked at both ends',
     'When a step of the forecast moves an amount, the source is debited and the destination credited by the same amount at the same time, and both are recorded; a negative amount moves the other way, and an amount spread over a timing is split by the timing\'s weights. '
     'A movement is only ever delayed, never brought forward: to the first time from which the source can always afford it, unless strict timing is asked for or no such time exists.',
     'inputs histories', 'every amount, sign, timing, pair of endpoints (pool, account or none) and prior transactions',
     'sample transactions cover a handful of amounts and timings',
     'forecast/subforecast.py forecast/income.py forecast/living_expenses.py forecast/saving.py forecast/withdrawal.py accounts/base.py utility/timing.py',
     [('SubForecast._add_transaction', 'forecast/subforecast.py'), ('SubForecast._shift_when', 'forecast/subforecast.py')])
prop('C08', 'Re-running or undoing a step replaces its effects, never adds to them',
     'Undoing a step subtracts exactly what the step recorded from every account and from the pool, at every time, and forgets the record and everything derived from it. '
     'Running a step a second time in the same year first undoes the first run; a first run in a year undoes nothing.',
     'histories', 'every sequence of run, undo, run again and advance, for every step',
     'needs repeated invocations with particular intermediate states',
     'forecast/subforecast.py forecast/withdrawal.py forecast/income.py forecast/saving.py forecast/living_expenses.py',
     [('SubForecast.__call__ and undo_transactions', 'forecast/subforecast.py'), ('WithdrawalForecast.undo_transactions', 'forecast/withdrawal.py')])
prop('C09', 'Reported totals cover exactly the people and accounts they describe',
     'Each reported total - income, tax withheld, savings, debt repayments, withdrawals, principal, tax owing, a person\'s deductions, credits and taxable income - adds up the named figure over every person or account it is said to describe, each exactly once, and nothing else. '
     'Derived totals follow their definitions: net is gross less tax withheld, savings are income less living expenses but never negative, the tax adjustment is tax withheld less tax owing.',
     'inputs configurations', 'every set of people, assets and debts, overlapping or disjoint',
     'fixtures have one or two people and accounts; mixing up two collections goes unnoticed when they coincide or are empty',
     'forecast/base.py forecast/income.py forecast/saving.py forecast/withdrawal.py forecast/tax.py person.py',
     [('recorded totals of each step', 'forecast/saving.py'), ('Person aggregates', 'person.py')])
prop('C11', 'One growth law governs balances, returns and what-if balances',
     'Money grows by the compounding law of its account\'s rate and compounding frequency (continuous when no frequency is given), each transaction from its own time: opening balances, balances at any time, yearly returns and times to reach a balance all follow this one law and include every transaction up to the time asked about, none after it. '
     'Next year\'s opening balance is this year\'s opening balance and all of its transactions grown to the end of the year.',
     'inputs histories', 'every rate (fixed, per-year or computed), frequency, balance, schedule of transactions and time',
     'numeric samples can only fix a few rates, frequencies and schedules',
     'accounts/base.py accounts/util.py',
     [('accumulation_function and value_at_time', 'accounts/util.py'), ('Account.balance, returns, balance_at_time, time_to_balance', 'accounts/base.py')])
prop('C12', 'Planned flows never leave the limits',
     'The largest and smallest inflows and outflows an account offers, in total or spread over a timing, never pass the limit that governs them (the account\'s own annual limit less what was already transacted this year, any limit given by the caller, and the money it holds) and never change sign: inflows are never negative and outflows never positive. '
     'Spread flows reach the requested balance whenever the limits allow it. Debts accept at most the amount outstanding, at least their minimum and at most minimum plus accelerated payments, and give nothing out.',
     'inputs', 'every balance, rate, timing, limit, and schedule of existing and hypothetical transactions, for each kind of account',
     'the clamps interact; tests sample a few combinations',
     'accounts/base.py accounts/debt.py canada/accounts/rrsp.py',
     [('max/min inflow/outflow limits and queries', 'accounts/base.py'), ('Account.transactions_to_balance', 'accounts/base.py'), ('Debt limits', 'accounts/debt.py')])
prop('C13', 'Linked limits: each kind uses its own link, and all members share it',
     'Reading or setting one of the four flow limits of a linked account consults or changes only the shared figure of that kind, for every account linked to it. '
     'When a linked account plans flows, the actual and hypothetical transactions of all other linked accounts of that kind count against the shared limit, its own exactly once. '
     'Membership is registered with the link\'s owner under its token, once for each account.',
     'inputs configurations', 'every group of linked accounts, each of the four kinds, every schedule of transactions in the group',
     'tests mostly exercise the maximum inflow link with two accounts; swapping two of the four kinds is invisible elsewhere',
     'accounts/linked_limit.py accounts/link.py',
     [('LinkedLimitAccount limit properties', 'accounts/linked_limit.py'), ('_merge_transactions', 'accounts/linked_limit.py'), ('AccountLink', 'accounts/link.py')])
prop('C14', 'What-if queries change nothing',
     'Asking an account how much could flow in or out, what its balance would be, when it would reach a balance or what transactions would get it there, asking a tax treatment for tax owing, a strategy for a plan, or a person for an age, leaves every account, person, transaction table and argument as it was (apart from internal caches of figures for the year).',
     'inputs programs', 'every query, on every kind of object that answers it, with every argument the caller may pass',
     'tests check answers, not that all other state and the caller\'s arguments are unchanged',
     'accounts/base.py accounts/debt.py accounts/linked_limit.py canada/accounts/rrsp.py canada/accounts/tfsa.py tax.py canada/tax.py strategy/allocation.py strategy/gross_transaction.py strategy/transaction/strategy.py',
     [('the query methods of the account classes', 'accounts/base.py'), ('Tax.__call__', 'tax.py')])
prop('C15', 'Owners and accounts, spouses, and links stay mutual',
     'An account is among its owner\'s accounts and no one else\'s, whatever sequence of ownership changes is made. '
     'If one person is another\'s spouse then the reverse holds too; changing or ending a marriage leaves no one pointing at a former spouse. '
     'An account belongs to a link\'s group exactly while it is linked.',
     'histories', 'every sequence of assignments of owners, spouses and links, including to no one',
     'needs sequences of three or more parties; tests use two',
     'accounts/base.py person.py accounts/link.py accounts/linked_limit.py',
     [('Account.owner setter', 'accounts/base.py'), ('Person.spouse setter', 'person.py'), ('AccountLink.link_account', 'accounts/link.py')])
prop('C16', 'Rejected values are refused before anything changes',
     'Values outside what is documented - wrong kinds of owner, spouse, tax treatment or link, times outside the year, unknown frequencies, missing or impossible dates, inverted equity bounds, unknown strategies, conflicting arguments, too-late conversions - are refused with an error, and values inside are accepted. '
     'When an assignment is refused, the object and everything connected with it are exactly as they were.',
     'inputs histories', 'every rejected value, for every setter that validates, from every prior state',
     'tests assert that the error is raised for one bad value, rarely the exact boundary or that state is intact afterwards',
     'accounts/base.py person.py utility/timing.py strategy/base.py strategy/allocation.py accounts/link.py canada/accounts/registered_account.py canada/accounts/rrsp.py scenario.py utility/inflation.py',
     [('validating setters', 'person.py'), ('when_conv, frequency_conv', 'utility/timing.py')])
prop('C17', 'The chosen numeric type is carried everywhere',
     'When a high-precision numeric type is chosen, it reaches every component built on behalf of an object that was given it, and every figure those components create themselves is expressed in it; when none is chosen values are left alone. '
     'Converted values belong to the object they were set on: an object never reports a value, or a conversion, of another.',
     'configurations programs', 'every high-precision type, every component and every figure',
     'a missed conversion matters only in high-precision runs that reach that one spot',
     'utility/precision.py accounts/base.py accounts/util.py forecast/base.py forecast/subforecast.py forecaster.py strategy/base.py tax.py canada/tax.py utility/timing.py value_reader.py',
     [('HighPrecisionOptional', 'utility/precision.py'), ('forwarding of high_precision', 'forecaster.py')])
prop('C18', 'Inflation adjustment always converts from the base year to the target year',
     'Wherever a figure for one year is stated in money of another, it is multiplied by the inflation from the year it is stated in to the year it is wanted for: brackets, deductions, contribution room, living expenses and factors alike. '
     'A figure given for the wanted year is used as it is; otherwise the nearest earlier year is used, or the nearest later one if there is none. '
     'The factor for a year is the product of one plus the inflation of each intervening year, and its reciprocal going back.',
     'inputs configurations', 'every table of figures, pair of years and inflation path',
     'tests often use constant tables or zero inflation, in which an exchanged pair of years is invisible',
     'scenario.py utility/inflation.py tax.py canada/tax.py canada/accounts/rrsp.py canada/accounts/tfsa.py strategy/gross_transaction.py',
     [('Scenario.accumulation_function', 'scenario.py'), ('extend_inflation_adjusted', 'utility/inflation.py'), ('call sites of inflation_adjust', 'tax.py')])
prop('C19', 'Forecasts and objects are isolated from one another',
     'Running a forecast works on copies of the people, accounts and debts it is given: the originals, and earlier or later runs, are unaffected, while links among the copies mirror those among the originals. '
     'No two objects share mutable state that either may change, unless it was passed to both by the caller: not defaults, not class-level tables, not caches.',
     'histories programs', 'every sequence of constructions and runs in one process',
     'tests build fresh objects and look at one at a time',
     'forecaster.py utility/precision.py ledger/base.py accounts/base.py accounts/link.py canada/forecaster.py tax.py value_reader.py',
     [('Forecaster.run_forecast deep copies', 'forecaster.py'), ('default tables copied per instance', 'forecaster.py')])
prop('C20', 'The same inputs give the same forecast',
     'Apart from the rounding of sums, results depend only on the arguments given and the settings and constants in force: no figure depends on the clock, randomness, the environment, or process-specific identities, addresses, hashes or the iteration order of sets. The one exception is the documented one: when no first year, or no birth date to go with an age, is given, the current year is taken.',
     'programs schedules', 'every run on the same inputs, in any process on any day',
     'two runs in one test process on one day agree by accident',
     'settings.py person.py strategy/transaction/base.py canada/tax.py forecast/subforecast.py tax.py',
     [('absence of clock, random and identity sources', 'person.py')])
prop('C21', 'Each parameter is built from its own setting, and explicit choices win',
     'Every parameter the planner can build takes each of its values from the setting of the same meaning, and every such setting and argument exists; explicit values given by the caller always take precedence over defaults, and defaults over nothing. '
     'Within one run each parameter is built once and shared by everything that needs it, and the pieces of a forecast are wired with the people, accounts, debts and strategies meant for them.',
     'configurations', 'every combination of settings, explicit parameters and builders',
     'tests check a few parameters; default values often coincide so that a swapped setting goes unnoticed',
     'forecaster.py settings.py canada/forecaster.py canada/settings.py',
     [('DEFAULTVALUES and DEFAULTTYPES', 'forecaster.py'), ('Forecaster.build_param, get_param, run_forecast', 'forecaster.py')])
prop('C22', 'A strategy selected by name is the one that runs',
     'Every named strategy is reachable under exactly one name, names are unique within a family, and calling a strategy object runs the method registered under its name with the caller\'s arguments and returns its result. '
     'Unsupported names are refused when the object is built, and every name offered as a default exists.',
     'configurations programs', 'every family of strategies and every name',
     'tests call the strategy methods they know of; a duplicated name silently replaces one of them',
     'strategy/base.py strategy/gross_transaction.py strategy/allocation.py strategy/transaction/strategy.py strategy/debt_payment/base.py strategy/debt_payment/util.py settings.py',
     [('strategy_method and StrategyType', 'strategy/base.py')])
prop('C23', 'Living expenses follow their rule, are never negative and are fully charged',
     'Each year\'s living expenses are what the chosen rule prescribes - a fixed amount, income less a fixed contribution, or a share of income, of growth over a base or of figures at retirement, adjusted for inflation from the year the figure belongs to - and never below zero; a schedule uses the retirement rule after the retirement year and the working rule up to it, and never goes below its minimum. '
     'The full amount is charged to available money, split between people in proportion to net income (equally when there is none) at the times each is paid.',
     'inputs', 'every income, balance, rate, year, retirement year and inflation path',
     'samples of years around retirement and of income mixes are few',
     'strategy/gross_transaction.py forecast/living_expenses.py',
     [('LivingExpensesStrategy methods', 'strategy/gross_transaction.py'), ('LivingExpensesStrategySchedule', 'strategy/gross_transaction.py'), ('LivingExpensesForecast', 'forecast/living_expenses.py')])
prop('C24', 'Income tax follows the brackets, for each person exactly once',
     'Tax on an income is the accumulated tax below its bracket plus the marginal rate on the excess, after deductions, less credits at the credit rate, and never negative; brackets, deductions and credit rates of later years derive from the nearest year on record. '
     'The tax of a group is the sum over its members, each counted once, spouses together, with each person\'s own deductions and credits applied once; combined jurisdictions add up and pass each its own deductions and credits.',
     'inputs configurations', 'every bracket table, year, income, group of people and marriage structure',
     'tests check a few incomes and one couple',
     'tax.py', [('Tax', 'tax.py'), ('TaxMulti', 'tax.py')])
prop('C25', 'Registered accounts follow their contribution-room and withholding rules',
     'Contribution room next year is this year\'s unused room over all accounts sharing it plus the new year\'s accrual by the contributor\'s age and income (withdrawals are added back for tax-free accounts), shared by every linked account, and set exactly once a year for the group; room the user supplies is used instead. '
     'Retirement accounts are taxed on withdrawals and deductible on contributions, must pay out the prescribed minimum after conversion, and are withheld against at the rate of the bracket of this year\'s withdrawals above that minimum; tax-free accounts and principal residences yield no taxable income.',
     'inputs histories', 'every age, income, schedule of flows, group of linked accounts and number of years',
     'tests advance one account a year or two from a few starting points',
     'canada/accounts/registered_account.py canada/accounts/rrsp.py canada/accounts/tfsa.py canada/accounts/principle_residence.py',
     [('RegisteredAccount.next_year', 'canada/accounts/registered_account.py'), ('next_contribution_room', 'canada/accounts/rrsp.py'), ('RRSP.tax_withheld, minimum_distribution', 'canada/accounts/rrsp.py')])
prop('C26', 'Settings and constants read the file, then the defaults, and convert numbers',
     'A named value is the one in the file if present, else its default when defaults are in use, else an error; assigning one affects that object only. '
     'When reading with conversion, every numeric string at any depth, keys included, becomes a number - whole numbers integers, others floats or the high-precision type - and everything else is left alone; infinities are accepted, other non-numbers refused. '
     'Writing uses the object\'s own values and encoder unless told otherwise.',
     'inputs configurations', 'every file content, nesting and combination of options',
     'tests read a handful of files',
     'value_reader.py settings.py canada/constants.py canada/settings.py',
     [('ValueReaderAttribute', 'value_reader.py'), ('ValueReader', 'value_reader.py')])
prop('C27', 'Timings spread money over the year by weight',
     'Times lie within the year, named times mean its start and end, named frequencies mean their number of periods, and a lump sum at a time within a frequency becomes that many evenly weighted, evenly spaced times. '
     'Spreading an amount over a timing gives each time its share of the total weight; a timing inferred from transactions never has negative weights. Adding or subtracting transactions changes exactly the times they contain, by exactly their amounts.',
     'inputs', 'every time, frequency, schedule of transactions and amount',
     'a few schedules are sampled', 'utility/timing.py',
     [('Timing', 'utility/timing.py'), ('when_conv, frequency_conv', 'utility/timing.py'), ('add_transactions', 'utility/timing.py')])
prop('C28', 'Saving and withdrawal plans respect priorities, weights and minimums',
     'A plan covers exactly the accounts that have a weight: ordered plans rank groups by increasing weight value, weighted plans give each group its weight; accounts are grouped by their most specific weighted kind, debts by their interest rate threshold and ranked by the chosen debt method. '
     'Minimum flows are satisfied before maximum flows and never counted twice, money in is planned as inflows and money out as outflows, and nothing is planned when there is nothing to move.',
     'inputs configurations', 'every mixture of accounts, debts, weights, thresholds and available amounts',
     'the tests fix small trees of accounts and amounts',
     'strategy/transaction/strategy.py strategy/transaction/base.py strategy/transaction/util.py strategy/transaction/node.py strategy/transaction/graph.py strategy/debt_payment/util.py strategy/debt_payment/base.py',
     [('TransactionStrategy', 'strategy/transaction/strategy.py'), ('TransactionTraversal.__call__', 'strategy/transaction/base.py'), ('memo of flows', 'strategy/transaction/graph.py')])
prop('C29', 'Asset allocations stay within equity bounds and always add up',
     'The allocation for an age follows the chosen rule and retirement-age adjustment, and its equity share is brought to the nearest bound when outside the minimum or maximum, the difference being taken from or given to the other classes in proportion so that the total stays the same. '
     'The return of a portfolio in a year is the average of the scenario\'s returns of each class for that year weighted by the allocation for the person\'s age in that year.',
     'inputs', 'every age, retirement age, target and pair of bounds, and every scenario',
     'tests sample ages at which a bound is inactive or an asset class empty',
     'strategy/allocation.py', [('AllocationStrategy', 'strategy/allocation.py'), ('RateFunction', 'strategy/allocation.py')])
prop('C30', 'Canadian tax adds federal and provincial tax, each by its own rules',
     'Each jurisdiction uses its own brackets, personal deduction, credit rate and credit amounts from the constants, and total tax is the sum of both; deductions and credits given for one jurisdiction reach that one only. '
     'A pension credit covers retirement-account withdrawals up to the year\'s maximum, and of two spouses only the one with the higher net income may claim the spousal amount, reduced by the other\'s net income and never negative.',
     'inputs configurations', 'every couple, income, year and constants table',
     'the shipped defaults for the two jurisdictions largely coincide, hiding mix-ups',
     'canada/tax.py canada/constants.py', [('TaxCanadaJurisdiction', 'canada/tax.py'), ('TaxCanada', 'canada/tax.py')])
prop('C31', 'Capital gains and cost base follow the transactions in time order',
     'The adjusted cost base grows with every contribution and shrinks in proportion with every withdrawal, in the order of their times; each withdrawal realises the gain of the part withdrawn, and the year\'s closing cost base is next year\'s opening one. '
     'Half of the year\'s capital gain is taxable income.',
     'inputs histories', 'every schedule of contributions and withdrawals over any number of years',
     'tests use one or two transactions', 'canada/accounts/taxable_account.py',
     [('TaxableAccount.capital_gain', 'canada/accounts/taxable_account.py')])
prop('C32', 'People earn, get raises, retire and age by the calendar',
     'Gross income each year is last year\'s plus the raise for that year, and nothing in years after the retirement year; net income is gross income less tax withheld, which the person\'s tax treatment determines from gross income for the year. '
     'Ages are completed years at a date, and retirement date and retirement age always agree; raises may be fixed, per-year or computed.',
     'inputs histories', 'every birth, retirement and query date, income, raise rule and number of years',
     'tests sample round dates', 'person.py', [('Person', 'person.py')])
prop('C33', 'Scenario rates hold for every year of the scenario',
     'A scenario covers exactly its stated number of years from its first one, in order, and refuses to have none. '
     'A rate given as a number applies in every year, given as a sequence applies from the first year on in order, given per year applies as stated; each kind of rate answers with its own values.',
     'inputs configurations', 'every form of each rate, every initial year and length',
     'tests use one sequence', 'scenario.py', [('Scenario', 'scenario.py')])

# ------------------------------------------------ not decided by this family
prop('C40', 'Chosen flows are maximal and cheapest in the priority network',
     'The flows planned for a given amount move as much as the accounts allow and, among all such plans, favour earlier priorities and balance weighted groups as closely as limits permit.',
     'inputs', 'every tree of priorities, limits and amounts', 'an optimisation result over all networks',
     'strategy/transaction/base.py strategy/transaction/graph.py', [('max_flow_min_cost and weighted rebalancing', 'strategy/transaction/base.py')])
prop('C41', 'Inferred timings never overdraw the transactions they come from',
     'A timing inferred from a mixture of inflows and outflows, scaled to their total, never uses money before it is available.',
     'inputs', 'every mixed schedule', 'quantifies over running sums of arbitrary schedules',
     'utility/timing.py', [('_accum_inflows, _accum_outflows', 'utility/timing.py')])
prop('C42', 'Growing money and asking how long it takes are inverse',
     'The time reported for a balance to reach a value is the time at which it has that value.',
     'inputs', 'every rate, frequency and pair of values', 'numeric inversion with floating point',
     'accounts/util.py', [('accumulation_function_inverse', 'accounts/util.py')])
prop('C43', 'Values written to a file read back the same',
     'Writing settings or constants and reading them again gives the same values in the same numeric type.',
     'inputs', 'every table of values', 'round-trip equality through the JSON library and number formatting',
     'value_reader.py', [('ValueReader.write, read', 'value_reader.py')])
prop('C44', 'Forecasts stay accurate over long horizons',
     'Rounding in planned flows and repeated compounding never accumulates to more than a negligible share of the balances.',
     'inputs histories', 'every horizon and magnitude', 'a quantitative error bound',
     'strategy/transaction/base.py accounts/util.py', [('integer capacities', 'strategy/transaction/base.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(p) + '\n')
    print(len(P))
