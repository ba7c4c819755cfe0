N_REF = 'Held on the executions generated (counts in the evidence file); says nothing about inputs never drawn. Trusts the independent reference model in vmon/ref.py and stated tolerances.'
WHY = 'quantified over all inputs; the tests compare about one published textbook answer per question at 1% relative tolerance'

prop('P01', 'Interest-rate forms, conversions and annuities-certain agree',
     'However a constant interest assumption is supplied (effective rate, discount rate, discount factor, force, or m-thly nominal rate), every other form it reports and the discount factor for any duration describe that same rate; converting a rate to m-thly and back is the identity, and doubling the force of interest squares the discount factor in every form. '
     'The value of an annuity-certain equals the sum (or integral) of its discounted payments for every term, payment frequency and timing, including zero interest and, for a positive rate, perpetuities. '
     'An interest assumption given as a discount function is used as given, and an assumption that names no rate is rejected.',
     ['inputs', 'configurations'], 'all non-negative rates in any of the supported forms, all m-thly frequencies, durations and annuity terms',
     WHY + '; conversions are exercised on a handful of rates', ['interest.py', 'life.py'],
     [('rate conversion in constructor', 'interest.py Interest.__init__'), ('m-thly conversion', 'interest.py Interest.mthly'), ('annuity-certain', 'interest.py Interest.annuity'), ('double force', 'interest.py Interest.double_force')],
     ['return values of the interest object built directly or through a life model'], N_REF)

prop('P02', 'Probability helpers equal the moments of the distribution they name',
     'The variance-of-a-sum and covariance helpers, the Bernoulli and binomial moments and the mixture and conditional-variance formulas equal the moments of the explicitly enumerated distribution, the last two agreeing with each other. '
     'The normal percentile and cumulative probability of a portfolio of N independent risks are inverse to each other and equal the normal distribution with N times the mean and variance; probabilities outside [0,1] and empty samples are rejected. '
     'The displayed normal table lists exactly the requested probabilities with their quantiles to three decimals.',
     ['inputs'], 'all probabilities, outcome values, weights and sample sizes', WHY, ['life.py'],
     [('moment helpers', 'life.py Life'), ('portfolio percentile and cdf', 'life.py Life.portfolio_percentile, Life.portfolio_cdf')],
     ['return values of the static helpers'], N_REF)

prop('P03', 'All forms of a survival model describe the same mortality',
     'A survival model specified in any one form (survival probability, lifetime density, number of lives, or force of mortality), including one that depends on both selection age and duration since selection, reports survival probabilities, deaths, deferred mortality, lives, densities and forces that all match that one mortality law to numerical accuracy. '
     'Survival probabilities start at one, never increase, and multiply along consecutive periods; deferred death probabilities are differences of survival probabilities, over consecutive periods add up to the probability of death in the whole period, and numbers of deaths are differences of numbers of lives. '
     'Negative ages or durations since selection are rejected.',
     ['inputs', 'configurations'], 'all mortality laws in all four forms, ages, select durations, and terms within the age limit', WHY,
     ['survival.py', 'actuarial.py'], [('derivation of remaining forms', 'survival.py Survival.set_survival'), ('actuarial forms', 'survival.py Survival.l_x .. mu_x')],
     ['return values of survival queries'], N_REF)

prop('P04', 'Lifetime expectations and moments equal sums and integrals of survival',
     'Curtate and complete expectations of future lifetime, limited to any term or for whole life, their second moments and their variances equal the sums or integrals of the survival probabilities of the same model, for user-specified survival functions, mortality laws, constant force, life tables and select tables alike. '
     'They obey the recursion between consecutive ages (e at age x = limited e for n years + survival times e at age x+n), including for lives some years after selection.',
     ['inputs', 'configurations'], 'all mortality models, ages, select durations, terms (including beyond the last age), curtate or complete, first and second moments and variance', WHY,
     ['lifetime.py', 'lifetable.py', 'mortalitylaws.py', 'constantforce.py', 'selectlife.py', 'fractional.py'],
     [('sum or integral of survival', 'lifetime.py Lifetime.e_x'), ('closed forms', 'mortalitylaws.py, constantforce.py'), ('table forms', 'lifetable.py LifeTable.e_x, selectlife.py Select.e_x')],
     ['return values of expectation queries'], N_REF)

prop('P05', 'Fractional-age quantities follow the chosen assumption exactly',
     'Between integer ages, numbers of lives, survival and deferred death probabilities, densities and forces of mortality follow exactly the selected assumption (uniform distribution of deaths or constant force), for any fractional starting age and duration, whether or not an integer age is crossed, and coincide with the integer-age values at integer ages. '
     'Survival is multiplicative over consecutive fractional periods, and complete or limited expectations from an integer age equal the integral of this fractional survival; the approximate conversion between curtate and complete expectation is its own inverse.',
     ['inputs', 'configurations'], 'all integer-age mortality bases, both assumptions, all fractional ages, durations and deferrals', WHY,
     ['fractional.py', 'lifetable.py'], [('interpolation', 'fractional.py Fractional.l_r, p_r, q_r, mu_r, f_r'), ('expectations', 'fractional.py Fractional.E_r, e_r, e_approximate')],
     ['return values of fractional-age queries'], N_REF)

prop('P06', 'Insurance values equal the moments of the benefit paid at death',
     'Whole life, term, deferred, endowment, increasing and decreasing insurances, pure endowments and insurances with an arbitrary benefit function equal the expectation (and, where offered, the second moment and the variance) of the discounted benefit computed year by year or by integration from the survival model, for any benefit and endowment amount, select duration, deferral and term, discrete or continuous. '
     'This holds on every mortality basis: user-specified survival functions, mortality laws, constant force, life tables and select tables.',
     ['inputs', 'configurations'], 'all mortality bases, ages, select durations, terms, deferrals, benefit amounts, interest rates, discrete and continuous', WHY,
     ['insurance.py', 'lifetable.py', 'selectlife.py', 'constantforce.py', 'mortalitylaws.py'],
     [('first-principles EPV', 'insurance.py Insurance.A_x'), ('decomposition into whole life and pure endowment', 'insurance.py Insurance.term_insurance .. decreasing_insurance'), ('model-specific shortcuts', 'constantforce.py, mortalitylaws.py, lifetable.py, selectlife.py')],
     ['return values of insurance queries'], N_REF)

prop('P07', 'Annuity values equal the expectation and variance of payments while alive',
     'Whole life, temporary, deferred, immediate, certain-and-life, increasing and decreasing annuities and annuities with an arbitrary benefit function equal the expectation (and, where offered, the variance) of discounted payments made while the life survives, for any payment amount, select duration, deferral, term, and any interest rate including zero, discrete or continuous. '
     'Insurance and annuity values of the same contract convert into each other exactly (one minus interest times annuity). This holds on every mortality basis.',
     ['inputs', 'configurations'], 'all mortality bases, ages, select durations, terms, deferrals, payment amounts, interest rates, discrete and continuous', WHY,
     ['annuity.py', 'constantforce.py', 'selectlife.py', 'mortalitylaws.py'],
     [('first-principles EPV', 'annuity.py Annuity.a_x'), ('insurance twin', 'annuity.py Annuity.insurance_twin, annuity_twin, annuity_variance'), ('product decomposition', 'annuity.py Annuity.temporary_annuity .. decreasing_annuity')],
     ['return values of annuity queries'], N_REF)

prop('P08', 'Named mortality laws and their shortcuts agree with the defining law',
     'Each named mortality law (constant force, uniform, Beta, Gompertz, Makeham) reports survival, density, force, lives, expected lifetimes, insurances and annuities that equal what its defining force of mortality implies when the same quantity is computed from first principles by an independent generic model. '
     'Special cases coincide: Beta with exponent one is uniform, Makeham without the age-independent term is Gompertz.',
     ['inputs', 'configurations'], 'all parameters of the supported laws, ages, durations and terms within the age limit', WHY,
     ['mortalitylaws.py', 'constantforce.py'], [('closed-form shortcuts', 'mortalitylaws.py Beta, Uniform, Makeham, Gompertz; constantforce.py ConstantForce')],
     ['return values of the law models compared with first-principles models'], N_REF)

prop('P09', 'Percentiles of present-value random variables invert each other',
     'For present values of whole life insurance, whole life annuity and policy loss, the map from lifetime to present value matches the discounted cash flows, and the maps lifetime to value, value to lifetime, probability to value and value to probability are mutually inverse for continuous benefits on any mortality basis. '
     'Percentiles respect the direction of each variable (insurance and loss values fall with lifetime, annuity values rise) and, for discrete benefits, are attained at the right whole year; the expected benefit in each year, summed over years, is the insurance or annuity value.',
     ['inputs', 'configurations'], 'all mortality bases, ages, probabilities, premiums, interest rates, discrete and continuous', WHY,
     ['insurance.py', 'annuity.py', 'policyvalues.py'], [('percentile maps', 'insurance.py Z_t .. Z_to_prob; annuity.py Y_t .. Y_to_prob; policyvalues.py L_from_t .. L_to_prob')],
     ['return values of percentile queries'], N_REF)

prop('P10', 'Premiums satisfy the equivalence principle',
     'The net premium for any supported contract (whole life, term, endowment, deferred annuity or deferred insurance, return of premium, limited payment period) makes the expected present value of premiums equal that of benefits, and the gross premium additionally covers all initial, renewal, settlement and per-premium expenses, so that the expected loss at issue is zero, on any mortality basis and for discrete and continuous benefits. '
     'Premiums scale linearly with the insured amount; the premium solved for a probability of loss on a portfolio attains that probability under the normal approximation.',
     ['inputs', 'configurations'], 'all mortality bases, ages, select durations, terms, benefits, expenses and interest rates', WHY,
     ['premiums.py', 'policyvalues.py'], [('net premium', 'premiums.py Premiums.net_premium'), ('gross premium', 'premiums.py Premiums.gross_premium'), ('insurance and annuity equivalence', 'premiums.py Premiums.insurance_equivalence, annuity_equivalence, premium_equivalence')],
     ['premium returned versus independently valued cash flows'], N_REF)

prop('P11', 'Policy values and losses equal prospective cash-flow values',
     'The net and gross policy value at any duration equals the expected present value of remaining benefits and expenses less remaining premiums for the policy terms given, is zero at issue when the premium satisfies the equivalence principle, and the variance of the future loss equals that of the cash-flow random variable; survival to a later duration never changes the premium being charged. '
     'The loss for a given time of death equals the discounted cash flows of that policy, and policy terms are recorded exactly as given and initialised to the stated defaults. '
     'Expense and full-preliminary-term policy values follow from the same cash flows.',
     ['inputs', 'configurations', 'histories'], 'all mortality bases, ages, durations, contract terms, premiums, expenses and interest rates', WHY,
     ['policyvalues.py'], [('policy values', 'policyvalues.py PolicyValues.net_policy_value, gross_policy_value'), ('variance of loss', 'policyvalues.py net_variance_loss, gross_variance_loss'), ('contract terms', 'policyvalues.py Contract')],
     ['policy value returned versus independently valued remaining cash flows'], N_REF)

prop('P12', 'Reserve recursions are consistent with prospective reserves',
     'Stepping reserves forward or backward one or several years with the premiums, benefits, expenses and mortality of the policy reproduces the prospective reserve at the other end, forward and backward steps undo each other, and filling in missing reserves completes the schedule without altering given values and regardless of which reserves were given. '
     'Interim reserves, modified (full preliminary term) reserves and reserves for a different benefit or reserve benefit satisfy the same one-period cash-flow balance.',
     ['inputs', 'histories', 'configurations'], 'all mortality bases, policies, expense schedules, durations and subsets of given reserves', WHY,
     ['reserves.py'], [('recursions', 'reserves.py Reserves.t_V_forward, t_V_backward, t_V'), ('fill', 'reserves.py Reserves.fill_reserves, set_reserves')],
     ['reserve values returned and reserve schedule after fill'], N_REF)

prop('P13', 'Filling a life table is consistent, complete and preserves its inputs',
     'From any sufficient mix of given numbers of lives, deaths, and survival or mortality probabilities, filling a life table yields a table in which every age satisfies lives at the next age = lives minus deaths = lives times survival probability, and mortality and survival probabilities add to one, and in which every given entry is kept to the precision of the table. '
     'The result does not depend on the order in which entries were given or on filling more than once; all queries on the filled table (survival, deaths, deferred mortality, forces, pure endowments) agree with its entries, and beyond the last age no one is alive.',
     ['inputs', 'histories'], 'all life tables, all sufficient subsets of entries, all orders of entry, all ages and terms', WHY,
     ['lifetable.py'], [('fill', 'lifetable.py LifeTable.fill_table'), ('queries', 'lifetable.py LifeTable.l_x .. E_x'), ('entry', 'lifetable.py LifeTable.set_table')],
     ['table contents and query results after entry and fill'], N_REF)

prop('P14', 'Select and ultimate tables stay consistent across rows and columns',
     'From any sufficient mix of given select entries (lives, deaths, mortality, insurance, annuity or expectation values), filling a select table yields rows in which every year satisfies the survival recursion, and values of insurances, annuities and expectations at consecutive durations satisfy their one-year recursions, with every given entry preserved. '
     'Lives past the select period use the ultimate values of the attained age regardless of when they were selected, and every query (survival, deferred mortality, lives, insurance, annuity, expectation) for a life some years after selection uses the row of its selection age.',
     ['inputs', 'histories', 'configurations'], 'all select periods, ages, mixes of given entries, interest rates, orders of entry', WHY,
     ['selectlife.py'], [('entry', 'selectlife.py Select.set_select, set_table'), ('fill', 'selectlife.py Select.fill_table'), ('lookup with select period', 'selectlife.py Select.get_sel, __getitem__')],
     ['table contents and query results after fill'], N_REF)

prop('P15', 'The recursion solver only returns values that are true of the given facts',
     'Given any collection of facts (survival or mortality probabilities, pure endowments, insurances, annuities, increasing and decreasing benefits, expectations) that all come from one underlying mortality model and interest rate, every value the solver returns for any query, including scaled benefits and second moments, equals the value in that model; where it cannot deduce a value it says so rather than returning a wrong one, and a query that follows from the given facts by a single application of a documented recursion, chain, complement or twin rule is answered. '
     'Answers do not depend on the order in which facts were supplied, and facts entered with a benefit amount other than one are recorded per unit.',
     ['inputs', 'histories'], 'all mortality models and interest rates, all subsets and orders of supplied facts, all queries, benefit amounts, moments, recursion depths', WHY,
     ['recursion.py'], [('recursion formulas', 'recursion.py Recursion._*_x'), ('fact store', 'recursion.py Recursion.set_* / _get_*')],
     ['return value of each query against the generating model'], N_REF)

prop('P16', 'One-over-m-thly insurances and annuities equal explicit m-thly sums',
     'Insurances, annuities, survival probabilities, discount factors, twins and variances for benefits payable m times a year equal the explicit sums over m-thly periods from the underlying fractional-age survival model, for any frequency, benefit amount, deferral and term; frequency one reproduces the annual values and continuous payment is the limit as the frequency grows.',
     ['inputs', 'configurations'], 'all mortality bases, frequencies including annual and continuous, ages, terms, benefits, interest rates', WHY,
     ['mthly.py'], [('m-thly sums', 'mthly.py Mthly.A_x, a_x'), ('products', 'mthly.py Mthly.whole_life_insurance .. immediate_annuity')],
     ['return values of m-thly queries'], N_REF)

prop('P17', 'UDD and Woolhouse approximations equal their defining formulas',
     'Under the uniform-distribution-of-deaths adjustment, m-thly and continuous insurances and annuities of every kind equal the annual values adjusted by the interest-only factors, which is exact when deaths are in fact uniform within each year; Woolhouse values equal the two- or three-term expansion of the annual values, so that temporary, deferred and endowment products decompose consistently. '
     'Benefit amounts scale results, frequency one reproduces the annual values, and continuous payment is the limit of increasing frequency.',
     ['inputs', 'configurations'], 'all mortality bases, frequencies, ages, terms, benefits, interest rates, two- and three-term expansions', WHY,
     ['udd.py', 'woolhouse.py'], [('UDD factors', 'udd.py UDD.alpha, beta and products'), ('Woolhouse expansion', 'woolhouse.py Woolhouse.whole_life_annuity and products')],
     ['return values of approximation queries'], N_REF)

prop('P18', 'Extra mortality risk adjusts exactly the chosen quantity',
     'An extra-risk overlay transforms standard mortality exactly as selected (years added to age, force added or multiplied, mortality rate multiplied) and reports matching survival and mortality probabilities that remain valid probabilities and add to one; a neutral adjustment reproduces standard mortality. '
     'The underlying standard life is left unchanged, and building a life table from the adjusted rates reproduces them.',
     ['inputs', 'configurations', 'histories'], 'all mortality bases, ages, durations since selection, adjustment kinds and sizes', WHY,
     ['extrarisk.py'], [('adjustment of p and q', 'extrarisk.py ExtraRisk.p_x, q_x, __getitem__')],
     ['return values of the adjusted life and of the standard life'], N_REF)

prop('P19', 'Queries are pure: repeatable, isolated and free of side effects',
     'Asking any model for any quantity never changes the answer to that or any other query on the same model, on other models, or on the contract and interest assumption passed in, in whatever order queries are made and whether or not tracing is on. '
     'Reconfiguring one model (interest, table, survival function, policy terms) takes effect for subsequent queries on it and does not affect other models, and the same history always yields the same answers. Tables, schedules, lists and columns supplied by the caller are neither modified nor tied to the model: models built from the same argument objects, or whose argument objects or returned frames the caller later changes, answer as if each had been given its own copies.',
     ['histories', 'inputs', 'configurations'], 'all interleavings of queries and reconfigurations over several live models of different kinds', 'quantified over histories; each test builds a fresh model and asks one question',
     ['actuarial.py', 'interest.py', 'survival.py', 'lifetable.py', 'selectlife.py', 'recursion.py', 'policyvalues.py', 'reserves.py', 'sult.py'],
     [('per-instance state', 'survival.py, lifetable.py, recursion.py constructors'), ('solver restores through final call', 'actuarial.py Actuarial.solve')],
     ['results of repeated and interleaved queries; deep snapshots of model state'],
     'Held on the interleaved histories generated; compares with fresh models replaying the same history.', 'runtime monitoring: history recording, replay on fresh models and state snapshots')

prop('P20', 'The standard ultimate table is the Makeham law it is defined by',
     'The standard ultimate life table reproduces its Makeham survival law at its interest rate for every age: lives, mortality, insurances of first and second moment, annuities, pure endowments and term and joint temporary columns; the displayed frame contains these values rounded for every age. '
     'Changing its interest rate, mortality parameters or age range changes all derived values accordingly.',
     ['inputs', 'configurations'], 'all ages, interest rates, law parameters and table ranges', WHY,
     ['sult.py'], [('table from Makeham law', 'sult.py SULT.__init__'), ('frame', 'sult.py SULT.frame, __getitem__')], ['table entries, frame cells and query results'], N_REF)

prop('P21', 'Numerical helpers solve, integrate, differentiate and bound as documented',
     'The integration helper returns the definite integral, the differentiation helper the derivative, and the root helper a value at which the function attains the target (or, when asked, minimises the absolute deviation), with the function last evaluated at the returned solution so its side effects correspond to it; starting points may be a value or a range. '
     'Adding terms treats whole life as absorbing, and limiting a term never lets age plus deferral plus term exceed the oldest age and never alters a term that fits.',
     ['inputs'], 'all smooth functions with a root in the range, ages, terms and deferrals', WHY, ['actuarial.py'],
     [('helpers', 'actuarial.py Actuarial.integral, derivative, solve, add_term, max_term')], ['return values and calls made to the supplied function'], N_REF)

prop('P22', 'Plots draw the functions they name',
     'Plots of the present value of insurances, annuities and losses draw, at every time from zero to the end of the range asked for (to the oldest age when none is given), exactly the value of the benefit or loss if death occurs then; the optional second axis draws the survival probability of the life aged [x]+s at the same times. '
     'An annotated lifetime, including time zero, is marked at its own value and survival probability, the labels show these numbers and the value is returned; given axes, titles and colours are used; the reserves plot shows every known reserve at its time and no unknown one.',
     ['inputs', 'configurations'], 'all mortality bases, ages and durations since selection, ranges, annotated times, benefit functions, policies, discrete and continuous payment', WHY,
     ['insurance.py', 'annuity.py', 'policyvalues.py', 'reserves.py'],
     [('insurance plot', 'insurance.py Insurance.Z_plot'), ('annuity plot', 'annuity.py Annuity.Y_plot'), ('loss plot', 'policyvalues.py PolicyValues.L_plot'), ('reserve plot', 'reserves.py Reserves.V_plot')],
     ['bars, curves, markers, labels and titles present on the axes after the call; the value returned'], N_REF)

prop('P23', 'Displayed recursion steps are true statements',
     'Every step the recursion solver displays in raw text, whatever facts it was given and whatever is asked, is a true equation between the quantities it names (ages, terms, deferrals, moments, benefit and endowment amounts included), under a title naming the quantity asked for. '
     'Display in typeset notation shows the same steps under the same rules and title as raw text: same quantities, ages, terms, deferrals, moments and amounts, as far as the notation tells them. '
     'Nothing is displayed when display is switched off, and the answer is the same with and without display.',
     ['inputs', 'histories', 'configurations'], 'all sets of true facts, queries, search depths and display options', WHY,
     ['recursion.py'], [('step labels', 'recursion.py _Blog'), ('steps shown', 'recursion.py Recursion._q_x .. _a_x and public queries')],
     ['everything printed during each query; answers of loud and quiet twins'], 'Held on the fact sets and queries generated; typeset notation does not tell endowment amounts of insurances.', 'runtime monitoring: online checker of the printed derivation against an independent evaluation')


prop('P24', 'Omitted arguments take their documented defaults',
     'For every public function, constructor and setter of every class, leaving an optional argument out is the same as passing its documented default, and an argument means the same whether given by name in any order or by position in the documented order, whatever the other arguments are.',
     ['inputs', 'configurations'], 'all public functions of all classes, all subsets of omitted arguments, all values of the others, all model kinds', 'a test exercises one call form of a function; the guarantee is over all subsets of omitted arguments and all values of the rest',
     ['actuarial.py', 'interest.py', 'life.py', 'survival.py', 'lifetime.py', 'fractional.py', 'insurance.py', 'annuity.py', 'premiums.py', 'policyvalues.py', 'reserves.py', 'recursion.py', 'lifetable.py', 'selectlife.py', 'sult.py', 'mortalitylaws.py',
      'constantforce.py', 'extrarisk.py', 'mthly.py', 'udd.py', 'woolhouse.py'],
     [('signatures', 'insurance.py Insurance.*'), ('signatures', 'annuity.py Annuity.*'), ('signatures', 'recursion.py Recursion.set_*'), ('policy terms', 'policyvalues.py Contract.__init__')],
     ['outcome of the same request put with defaults written out, omitted, and by position'], 'Held on the functions, argument subsets and values drawn; the reference is the documented signature, copied into the monitor.', 'runtime monitoring: differential oracle over call forms')

prop('P25', 'Invalid requests are refused and failures leave everything as it was',
     'Requests outside the documented domain (negative ages, durations, times or fractions; unknown moments, columns or kinds of risk; probabilities outside their range; missing, ambiguous or uncallable inputs; unsupported combinations) are refused with an error, never answered. '
     'An error raised by a function the user supplied reaches the caller instead of becoming an answer, at whichever of its calls it occurs. After a refused or failed request the model answers every question exactly as if that request had never been made.',
     ['inputs', 'histories', 'fault_sequences'], 'all documented preconditions of all classes; a failure at every call of every supplied survival, discount, benefit or objective function, and of the display, during every query', 'quantified over fault points and the questions asked afterwards; no test injects a failure',
     ['survival.py', 'lifetime.py', 'fractional.py', 'insurance.py', 'annuity.py', 'premiums.py', 'policyvalues.py', 'interest.py', 'life.py', 'lifetable.py', 'selectlife.py', 'recursion.py', 'mortalitylaws.py', 'extrarisk.py', 'mthly.py', 'udd.py', 'actuarial.py'],
     [('preconditions', 'survival.py Survival.set_survival, l_x, p_x'), ('summation with supplied functions', 'insurance.py Insurance.A_x'), ('root finding', 'actuarial.py Actuarial.solve')],
     ['error or answer of each invalid or faulted request; answers before, after and of a never-faulted twin'], 'Held on the requests and fault points drawn.', 'runtime monitoring: fault injection at supplied functions with a never-faulted twin as oracle')

prop('P26', 'Empty, whole and consecutive periods, amounts and orderings agree',
     'For one and the same model, of any class: products over an empty period or for a zero amount are worth nothing (an endowment of term 0 is worth its endowment, survival for no time is certain); values are proportional to the amount and variances to its square; deferring by nothing changes nothing; '
     'the values of consecutive periods add up to the value of the whole period; terms at or beyond the end of life, and the whole-life term, give the whole-life value; deferred products are the discounted survival times the product at the later age; endowments split into insurance and pure endowment; '
     'increasing and decreasing products pair; certain annuities are the certain part plus the deferred part; survival multiplies over consecutive periods; and values stay within their bounds, grow with the term and have nonnegative variance.',
     ['inputs', 'configurations'], 'all ages, select durations, terms, deferrals, amounts and interest rates (zero included, except for the m-thly classes), discrete and continuous, for thirteen model classes', 'universally quantified identities among answers; tests compare single values',
     ['survival.py', 'lifetime.py', 'insurance.py', 'annuity.py', 'premiums.py', 'lifetable.py', 'sult.py', 'selectlife.py', 'constantforce.py', 'mortalitylaws.py', 'mthly.py', 'udd.py', 'woolhouse.py'],
     [('short cuts and sums', 'insurance.py Insurance.term_insurance'), ('annuities by term', 'annuity.py Annuity.temporary_annuity'), ('m-thly products', 'mthly.py Mthly.term_insurance')],
     ['answers of the same model to related questions'], 'Held on the models and arguments drawn.', 'runtime monitoring: metamorphic identities between observed answers')
