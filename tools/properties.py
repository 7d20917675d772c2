IN = ['inputs']
HI = ['inputs', 'histories']
P('Q01', 'Arithmetic on quantities is exact and never goes below zero',
  'Adding, multiplying, dividing, stepping and comparing quantities gives the result of the same operation on their amounts. A subtraction that would go below zero is refused and leaves both quantities as they were.',
  IN, 'all pairs of 64-bit amounts and operands',
  'The unit tests compare a handful of small amounts; the underflow border and the step operators are over all 2^64 amounts.',
  ['esl/quantity.hpp'], [('struct quantity', 'esl/quantity.hpp')])
P('Q02', 'Splitting a quantity loses and creates nothing',
  'Splitting a quantity into n parts gives n parts that add up to the whole, differ by at most one unit, and come larger parts first.',
  IN, 'all amounts, each number of parts within the bound',
  'The tests split a few constants; remainders, amounts smaller than the number of parts and amounts beyond 32 bits depend on the input.',
  ['esl/quantity.hpp'], [('operator / and divide', 'esl/quantity.hpp')])
P('Q03', 'Prices of different currencies never mix, and order and arithmetic are exact',
  'Prices in one currency add, subtract, multiply, divide, negate and compare as their values do and keep the currency; arithmetic across currencies is refused. Prices in different currencies are never equal, and conversion to and from real numbers scales by the denominator of the currency.',
  IN, 'all 64-bit values, all pairs of currencies and denominators',
  'The tests use a few prices in US dollars and euros.',
  ['esl/economics/price.hpp', 'esl/economics/price.cpp'], [('struct price', 'esl/economics/price.hpp')])
P('Q04', 'Quotes of different lots or currencies are never compared or combined',
  'Quotes for the same lot in the same currency compare and combine as their prices do and keep lot and currency. Any comparison or arithmetic between quotes with different lot sizes, and ordering between currencies, is refused with an error.',
  IN, 'all pairs of prices, lots and currencies within the bound',
  'The tests use a few quotes with a lot of one; the refusal has to hold for each operator and every pair of lots.',
  ['esl/economics/markets/quote.hpp'], [('struct quote', 'esl/economics/markets/quote.hpp')])
P('Q05', 'A currency is a well-formed code with a positive denominator',
  'A currency can be made exactly from three capital letters and a positive denominator, which it keeps; anything else is refused. Currencies are equal exactly when code and denominator agree, equal ones hash alike, and the order by code is a strict order.',
  IN, 'all triples of characters and all denominators; all triples of codes',
  'The tests name a few predefined currencies and never a malformed code.',
  ['esl/economics/iso_4217.hpp', 'esl/economics/iso_4217.cpp', 'esl/economics/currencies.hpp', 'esl/economics/currencies.cpp'], [('iso_4217', 'esl/economics/iso_4217.hpp')])
P('Q06', 'Exchange and interest rates keep their value and convert prices exactly',
  'A rate has exactly the ratio it was made from, with a positive denominator; an inflation rate is the relative change of the price level over its period. Converting a price multiplies by the numerator and divides by the denominator, truncating towards zero, keeping sign and currency.',
  IN, 'rates with small numerators and denominators, all prices within the bound',
  'The tests convert two or three positive prices at one rate.',
  ['esl/economics/rate.hpp', 'esl/economics/exchange_rate.hpp', 'esl/economics/interest_rate.hpp', 'esl/mathematics/rational.hpp'], [('exchange_rate', 'esl/economics/exchange_rate.hpp'), ('rate', 'esl/economics/rate.hpp')])
P('K01', 'Tickers, share classes, orders and reports are told apart by all they consist of',
  'Two tickers, two classes of shares, two orders or two execution reports are equal exactly when every part of them is. Tickers are ordered by what is traded and then by what is paid with, and classes of shares by rank and then by all their rights, so that different ones are never the same key; equal ones hash alike.',
  IN, 'all pairs (and triples of share classes) within the bound',
  'The tests compare a few small examples; whether two keys collide depends on every field of both.',
  ['esl/economics/markets/ticker.hpp', 'esl/economics/finance/share_class.hpp', 'esl/economics/markets/order_book/order.hpp', 'esl/economics/markets/order_book/execution_report.hpp'],
  [('ticker', 'esl/economics/markets/ticker.hpp'), ('share_class', 'esl/economics/finance/share_class.hpp'), ('limit_order::operator ==', 'esl/economics/markets/order_book/order.hpp')])
P('I01', 'Identities are totally ordered and keep and show all their numbers',
  'Identities are equal exactly when all their numbers are, are ordered lexicographically, and equal ones hash alike. Copies and conversions between related types keep every number, and different identities have different texts.',
  IN, 'all identities within the bound of length, every 64-bit number in each place',
  'The tests compare a few identities of one or two small numbers.',
  ['esl/simulation/identity.hpp'], [('identity', 'esl/simulation/identity.hpp')])
P('I02', 'Identities handed out under one parent are never repeated',
  'Every child made by an entity gets a new identity that extends the identity of its parent; siblings, cousins, parents and grandchildren never share one. Copying an entity does not let an identity be handed out twice.',
  HI, 'all parent identities, series of creations within the bound',
  'The tests create a child or two; collisions between generations and through copies depend on the history of creations.',
  ['esl/simulation/entity.hpp', 'esl/simulation/identity.hpp'], [('entity::create', 'esl/simulation/entity.hpp')])
P('R01', 'Containers and outputs show every element once and in order',
  'A container written to a stream shows each of its elements (of maps: key and value) exactly once, in its order, separated and between brackets, and is left as it was. An output keeps every value with its time, in order, and when it is not buffered writes each at once to each of its streams. Text rendered as a delimiter separated field is read back unchanged.',
  IN, 'all elements, values and texts; number of elements, streams and lengths within the bound',
  'The tests write a few containers with fixed elements, and compare an output with a fixed text.',
  ['esl/data/representation.hpp', 'esl/data/output.hpp', 'esl/data/output_base.hpp', 'esl/data/format/delimiter_separated_values.hpp'],
  [('std::operator<< for containers', 'esl/data/representation.hpp'), ('output::put, output_base::write', 'esl/data/output.hpp'), ('render', 'esl/data/format/delimiter_separated_values.hpp')])
P('T01', 'Half-open intervals contain exactly the values between their bounds',
  'An interval contains exactly the values between its bounds, with each bound included or excluded according to its kind, and two adjoining half-open intervals split their union. A half-open interval is empty or a single value exactly when it contains no or one integer.',
  IN, 'all bounds and values of 64 bits',
  'The tests use a few small bounds; wrap-around at the ends of the number range and empty intervals are never reached together.',
  ['esl/mathematics/interval.hpp', 'esl/simulation/time.hpp'], [('interval', 'esl/mathematics/interval.hpp')])
P('A01', 'Array and power helpers are exact',
  'An integer power equals repeated multiplication, also when it wraps around. Concatenating, slicing and converting arrays keeps exactly the elements asked for in order, and enumerating visits every element once, counted from zero.',
  IN, 'all bases, exponents and elements within the bound',
  'The tests compute a few small powers.',
  ['esl/algorithms.hpp'], [('nonnegative_integer_power, array_slice, array_concatenate, to_array, enumerate', 'esl/algorithms.hpp')])
P('A02', 'Rounding fractional shares keeps the total',
  'Rounding fractional amounts to whole units gives one share per amount, within one unit of it, and the shares add up to the rounded total.',
  IN, 'all lists of amounts within the bound',
  'The tests round one list; which shares are rounded up depends on all fractional parts at once.',
  ['esl/algorithms.hpp'], [('allocate_fractions', 'esl/algorithms.hpp')])
P('S01', 'CUSIP and SEDOL codes carry the right check digit',
  'The check digit of a CUSIP or SEDOL is the one the standard prescribes for its symbols, and a CUSIP given with any other check digit is refused. Codes keep their symbols, and a SEDOL with anything but digits and letters is refused.',
  IN, 'all neighbouring symbols within the bound, all check digits',
  'The tests check one or two real codes, so most symbols and carries are never used.',
  ['esl/economics/finance/cusip.hpp', 'esl/economics/finance/sedol.hpp'], [('cusip::checksum', 'esl/economics/finance/cusip.hpp'), ('sedol::checksum', 'esl/economics/finance/sedol.hpp')])
P('S02', 'ISIN codes pass the Luhn test, however they are made',
  'An ISIN followed by its check digit passes the Luhn test for every mixture of letters and digits. Making it from country and code, from eleven symbols, from text or from a CUSIP gives the same ISIN; a text of another length is refused. A country is exactly two capital letters.',
  IN, 'all neighbouring symbols within the bound; all symbols for the ways of making it; all two-character countries',
  'The tests check one or two real codes; letters shift the position of every later digit.',
  ['esl/economics/finance/isin.hpp', 'esl/geography/iso_3166_1_alpha_2.hpp'], [('isin::checksum', 'esl/economics/finance/isin.hpp')])
P('S03', 'Legal entity and market identifiers are well-formed and carry the right check',
  'A legal entity identifier followed by its check digits, 02 to 98, leaves 1 when divided by 97, however it was made, and keeps and shows its symbols; a text is accepted exactly when it is such an identifier, with or without check digits. A market identifier is exactly four digits or capital letters, which it keeps, shows and is ordered by; anything else is refused.',
  IN, 'all neighbouring symbols within the bound, all check digits, all four-character market codes, all lengths within the bound',
  'The tests check one or two real codes; short, long and malformed texts are never given.',
  ['esl/law/legal_entity.hpp', 'esl/economics/markets/iso_10383.hpp'], [('iso_17442::checksum and constructors', 'esl/law/legal_entity.hpp'), ('iso_10383', 'esl/economics/markets/iso_10383.hpp')])
P('Z01', 'What is written to an archive is read back the same',
  'Quantities, currencies, prices, quotes, exchange and interest rates, identities, time intervals, countries, jurisdictions, legal entities, classes of shares, dividend policies and constant parameters that are written to an archive and read from it into another object are equal to what was written. Message headers keep type, sender, recipient and both times, and messages about dividends keep their header too. All that is written is read, so that what follows in the archive is not displaced.',
  IN, 'all numbers, identities and rights of shares; prices, rates and currencies within the bound',
  'No test reads an archive.',
  ['esl/economics/price.hpp', 'esl/economics/iso_4217.hpp', 'esl/economics/markets/quote.hpp', 'esl/economics/rate.hpp', 'esl/economics/exchange_rate.hpp', 'esl/economics/interest_rate.hpp', 'esl/mathematics/rational.hpp', 'esl/mathematics/interval.hpp', 'esl/simulation/identity.hpp', 'esl/quantity.hpp', 'esl/interaction/header.hpp', 'esl/interaction/message.hpp', 'esl/economics/finance/dividend.hpp', 'esl/economics/finance/share_class.hpp', 'esl/law/legal_entity.hpp', 'esl/law/jurisdiction.hpp', 'esl/geography/iso_3166_1_alpha_2.hpp', 'esl/simulation/parameter/parameter.hpp'], [('price::serialize', 'esl/economics/price.hpp'), ('quote::save and load', 'esl/economics/markets/quote.hpp'), ('message::serialize', 'esl/interaction/message.hpp'), ('save and load of boost::rational', 'esl/mathematics/rational.hpp')])
P('B01', 'A block pool finds each live element by its index and reuses no index',
  'Every element put in a block pool is found, unchanged, under the index it was given until it is erased. Indices increase and are never given twice, also when freed places are reused; erasing works exactly once per live element, and a full pool refuses more.',
  HI, 'all elements, series of insertions and erasures within the bound',
  'The test makes a few elements; reuse of freed places depends on the history of erasures.',
  ['esl/computation/block_pool.hpp'], [('static_block_pool::emplace and erase', 'esl/computation/block_pool.hpp')])
P('O01', 'The binary tree order book matches by price, then time, and loses nothing',
  'After every order or cancellation the quotes of the binary tree order book are the best resting orders. Orders trade against the best opposite order first, the older first at the same price, at the price of the resting order and never beyond a limit; every unit ordered has been traded, rests or was cancelled, and each side is told of its trades and cancellations once. Fill-or-kill orders fill completely or not at all, immediate-or-cancel orders never rest.',
  HI, 'series of limit, market and cancel requests within the bound, all prices and amounts within the bound',
  'The tests insert a few orders; priority, partial fills and cancellations in between depend on the history.',
  ['esl/economics/markets/order_book/binary_tree_order_book.hpp', 'esl/economics/markets/order_book/basic_book.hpp'], [('binary_tree_order_book::insert and cancel', 'esl/economics/markets/order_book/binary_tree_order_book.hpp')])
P('O02', 'The static order book matches by price, then time, and loses nothing',
  'After every order or cancellation the quotes of the static order book are the best resting orders. Orders trade against the best opposite order first, the older first at the same price, at the price of the resting order and never beyond a limit; every unit ordered has been traded, rests or was cancelled, and each side is told once. Fill-or-kill orders fill completely or not at all, immediate-or-cancel orders never rest, prices outside the range are refused.',
  HI, 'series of limit, market and cancel requests within the bound, all levels of the price range and all amounts within the bound',
  'The tests insert a few orders; priority, partial fills and cancellations in between depend on the history.',
  ['esl/economics/markets/order_book/static_order_book.hpp', 'esl/economics/markets/order_book/basic_book.hpp', 'esl/computation/block_pool.hpp'], [('static_order_book::insert and cancel', 'esl/economics/markets/order_book/static_order_book.hpp')])
P('C01', 'Due messages are handled once, in order of time, by every callback for them',
  'Processing an inbox hands each message that is due to every callback for its type, by descending priority, and no other message; in the order of delivery times unless a random order was asked for, and then still each once. It tells the earliest time anything remains to be done: pending deliveries and times asked for by callbacks. Sent messages carry sender, recipient and times unchanged.',
  HI, 'all delivery times, steps, priorities and returned times; inboxes within the bound',
  'The tests deliver a message or two; ties, pending messages and several callbacks come together only by chance.',
  ['esl/interaction/communicator.cpp', 'esl/interaction/communicator.hpp', 'esl/interaction/message.hpp'], [('communicator::process_messages', 'esl/interaction/communicator.cpp')])
P('M01', 'A step runs every due agent and delivers every due message, and no other',
  'In a step of the model an agent acts exactly when it announced it would or when a message for it is due. Messages reach their recipient only, once, never before their delivery time, and before the recipient acts. Rounds repeat until nothing is due, and the step returns the earliest time at which an agent wants to act or a message is due, to which the time of the model advances.',
  HI, 'all start, end, wake-up and delivery times; agents, messages and steps within the bound',
  'The tests run one or two agents with fixed delays.',
  ['esl/simulation/model.cpp', 'esl/computation/environment.cpp', 'esl/interaction/communicator.cpp', 'esl/agent.cpp'], [('model::step', 'esl/simulation/model.cpp'), ('environment::send_messages', 'esl/computation/environment.cpp')])
P('E01', 'Agents take part in a run from their creation until they are removed',
  'A run initializes the model, takes steps that follow each other from start to end, and terminates it, each once. Agents created or removed at any time are activated or deactivated once and listed exactly while they live; a removed agent acts no more and never holds up the run, and a message to an agent that does not exist is an error. A model has the parameters it was given; asking for an absent parameter or another type is an error.',
  HI, 'all times; changes of the population within the bound; all parameter values',
  'The tests never remove an agent during a run.',
  ['esl/computation/environment.cpp', 'esl/simulation/agent_collection.cpp', 'esl/simulation/model.cpp', 'esl/simulation/parameter/parametrization.hpp'], [('environment::run, activate, deactivate', 'esl/computation/environment.cpp'), ('agent_collection', 'esl/simulation/agent_collection.cpp'), ('parametrization::get', 'esl/simulation/parameter/parametrization.hpp')])
P('L01', 'Transfers move exactly what they list and create or destroy no property',
  'A transfer takes exactly what it lists from the transferor and gives it to the transferee; others, everything not listed and transfers to oneself change nothing. It is refused exactly when the transferor holds less of something than is listed, saying what was held and asked, and nothing refused is taken. The properties of one type an owner keeps agree with its inventory at all times.',
  HI, 'all quantities held and transferred; owners, properties and transfers within the bound',
  'The only test of owners moves one quantity once, and is not built.',
  ['esl/economics/owner.hpp', 'esl/economics/accounting/inventory.hpp', 'esl/interaction/transfer.hpp', 'esl/law/property_collection.hpp'], [('owner<property> and owner<property_t_>: process interaction::transfer, take', 'esl/economics/owner.hpp'), ('inventory_by_fungibility::insert, erase, insert_into, erase_from', 'esl/economics/accounting/inventory.hpp')])
P('X01', 'An exchange keeps one book per security and tells traders what became of orders',
  'An order or cancellation reaches the book of its own security only, and every report about it is sent once to the owner of the order it is about, at once plus the latency of that owner; an order for a security without a book is refused. Subscribers to a security, and no others, are told every trade once and every change of the best quotes. The positions of those logged on are what they brought, bought and sold.',
  HI, 'all series of orders, cancellations, subscriptions and members within the bound',
  'The tests place random orders and check no message; who is told what depends on the history of orders of several traders.',
  ['esl/economics/markets/centralized_exchange.hpp', 'esl/economics/markets/order_book/matching_engine.hpp'],
  [('centralized_exchange', 'esl/economics/markets/centralized_exchange.hpp'), ('matching_engine', 'esl/economics/markets/order_book/matching_engine.hpp')])
P('F01', 'A company announces each dividend once, and pays out no more than its profit',
  'A company tells every shareholder of a dividend exactly once, when it has been announced, and asks to act again no later than the next date of the dividend and never in the past. Each share of a class that pays dividends gets its part of the profit but for rounding, others nothing, and together no more than the profit; a loss is not paid out. A shareholder knows the last price it was quoted, lists all the shares it has of each stock, and puts all shares of the company on record at the dividend date.',
  HI, 'all dates, times, profits within 2^40 units, prices; shareholders, share classes, shares and steps within the bound',
  'One test has a company with a single date, another one quote; a few of the possible histories.',
  ['esl/economics/company.cpp', 'esl/economics/finance/shareholder.cpp', 'esl/economics/finance/dividend.cpp'], [('company::act, compute_dividend_per_share', 'esl/economics/company.cpp'), ('shareholder: quote messages, dividend announcements, stock_holdings', 'esl/economics/finance/shareholder.cpp')])
P('F02', 'What is owned is valued at its price, in its currency, with its sign',
  'Money in the reporting currency is worth its amount and foreign money its amount at the exchange rate, in the reporting currency. Shares are worth their quoted price by lot, lent shares and loans the same owed, also when prices are negative; what has no price or rate is refused. A real amount of money is rounded towards zero to units of the currency, and money is equal exactly when the currency is.',
  IN, 'quantities below 2^30, prices within 2^30 of zero, loans below 2^50, amounts within 2^37; lots and exchange rates within the bound',
  'The tests value a few positive holdings in one currency.',
  ['esl/economics/accounting/standard.hpp', 'esl/economics/cash.hpp', 'esl/economics/money.hpp', 'esl/economics/finance/securities_lending_contract.hpp'], [('standard::value for money, cash, stock, loan, securities lending', 'esl/economics/accounting/standard.hpp'), ('money::price, amount', 'esl/economics/money.hpp')])
P('P01', 'Samples of a parameter space lie within it and cover it as designed',
  'A grid has every combination of the points of its parameters; the points of a parameter are evenly spaced, lie in its interval and include both bounds (a single point is the lower bound). A latin hypercube samples every point of every parameter, an improved hypercube every value of every dimension once, and uniform samples lie in their intervals, whatever the random numbers. A parametrization gives each parameter its value, and refuses unknown names and other types.',
  IN, 'bounds of intervals, outcomes of random draws, values of parameters; parameters and points within the bound',
  'The tests take one grid, one hypercube and one seed, and compare only the number of distinct samples.',
  ['esl/simulation/parameter/sampler.hpp', 'esl/simulation/parameter/parametrization.hpp', 'esl/simulation/parameter/parameter.hpp'], [('sampler::grid, latin_hypercube, improved_hypercube_sampling, uniform_random', 'esl/simulation/parameter/sampler.hpp'), ('parametrization::get', 'esl/simulation/parameter/parametrization.hpp')])
SC = ['schedules', 'inputs', 'configurations']
P('M02', 'What a simulation does is independent of its threads and their schedule',
  'For the same parameters a step of a model gives the same result with one thread and with any number of threads, in whatever order they are scheduled: the same next event, each agent woken as often, at the same times, with the same random seeds and the same messages in the same order. No two threads use the same memory without synchronisation, no step waits forever, and an exception thrown by an agent comes out of the step, the same whatever the threads.',
  SC, 'schedules at the synchronising operations, all times and samples, agents, threads and steps within the bound',
  'The tests run a model once, and one run is one schedule.',
  ['esl/simulation/model.cpp', 'esl/interaction/communicator.cpp', 'esl/computation/environment.cpp'], [('model::step: split of the agents over threads, seeds, lock on wake-up times', 'esl/simulation/model.cpp'), ('communicator::process_messages', 'esl/interaction/communicator.cpp')])
P('W01', 'A blocking queue hands over each element once, in order, and wakes everyone',
  'Whatever the schedule of the threads, each element pushed to a blocking queue is taken by exactly one thread, and the elements of one producer are taken in the order they were pushed. An attempt that reports success took effect and no other did. A waiting thread is woken by an element or by closing; after closing the remaining elements are still handed out, and then every pop reports that there are none.',
  SC, 'schedules at the synchronising operations; all sequences of operations and elements within the bound',
  'No test uses the queue.',
  ['esl/computation/blocking_queue.hpp'], [('blocking_queue::push, try_push, pop, try_pop, close', 'esl/computation/blocking_queue.hpp')])
P('W03', 'Log channels lose and mix nothing and never wait for themselves',
  'Every text, number and end of line written to a log channel is in its stream once, in the order the thread wrote them, and what one thread writes at once is not mixed with what another writes. No two threads use a stream without synchronisation, and no writer waits forever.',
  SC, 'schedules at the synchronising operations, series of writes within the bound',
  'The tests write from one thread and look at no output.',
  ['esl/data/channel.hpp', 'esl/data/channel.cpp'], [('channel', 'esl/data/channel.hpp')])
P('W02', 'A thread pool does each piece of work exactly once and gives its result',
  'Whatever the schedule of the threads, each piece of work or task given to a thread pool, also by other work, is done exactly once and with its arguments before the pool is gone; the future of a task gives its result or throws its exception. A pool has as many threads as asked for, and at least one. Destroying the pool ends.',
  SC, 'schedules at the synchronising operations; all arguments; pieces of work and threads within the bound',
  'No test uses the pool.',
  ['esl/computation/thread_pool.hpp', 'esl/computation/blocking_queue.hpp'], [('thread_pool: workers, enqueue_work, enqueue_task, destructor', 'esl/computation/thread_pool.hpp')])
