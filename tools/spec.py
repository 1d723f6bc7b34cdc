"""What is claimed: one entry per property (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
NOT_APPLICABLE = {}
NOTES = ('Each check is ./check ID [--tier quick|thorough]; it imports the code from /repo/src on every run. '
         './check ID --replay evidence/replay/ID-n.json re-runs a reported counterexample on the unmodified code. '
         'properties.jsonl and this file are written by tools/gen.py from tools/spec.py.')


def P(id, title, statement, quant, why, files, mech, over=('inputs',), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why,
                      files=files.split(), mech=[tuple(m.split(' @ ')) for m in mech.split('; ')], **kw))


P('P01', 'All forms of the interest rate describe the same accumulation',
  'However an interest basis is specified (annual effective rate, discount rate, discount factor, force of interest, m-thly nominal '
  'rate of interest or discount), the five annual quantities it reports are those of one and the same constant rate, and '
  'the discount factor for t years is the t-th power of the one-year factor, positive, and multiplicative over successive periods. '
  'This includes a zero rate; factors decrease with time for positive rates, a given discount function is used as it is, and negative annual rates are rejected.',
  'all annual rates (symbolic, non-negative), all forms, the listed frequencies, durations 0 to 83 years',
  'tests use a handful of rates (mostly 5%) and one form each; consistency must hold for every rate and every form, including zero',
  'interest.py', 'conversion in the constructor @ interest.py Interest.__init__; nominal rates @ interest.py Interest.mthly', observe=['Interest(...)', 'set_interest(...)'])
P('P02', 'Converting between annual and m-thly rates is exact and reversible',
  'Compounding the m-thly nominal rate of interest or discount over a year gives back the annual effective rate it was converted from, for every '
  'frequency, and converting forth and back is the identity. Nominal rates are ordered (d < d(m) < force < i(m) < i for positive rates), meet at the force of interest in the '
  'continuous case (frequency zero), and are all zero at a zero rate; negative frequencies are rejected.',
  'all positive rates (symbolic) and zero, at frequencies 1, 2, 3, 4, 6, 12, 52, 365 and continuous',
  'tests convert a few single values in one direction', 'interest.py', 'conversion formulas @ interest.py Interest.mthly')
P('P03', 'Doubling the force of interest doubles it whatever form it is given in',
  'Doubling the force of interest gives the rate whose force of interest is twice the original, whichever form (annual rate, discount rate, factor or force) '
  'the original is given in and the result is returned in the same form; second moments at one basis are therefore first moments at the doubled one.',
  'all non-negative rates in each form', 'tests evaluate one numerical rate', 'interest.py', 'closed forms @ interest.py Interest.double_force')
P('P04', 'Annuities-certain equal the sum of their discounted payments',
  'The present value of an annuity-certain (payable in advance, m times a year, or continuously) equals the sum or integral of the discounted payments over its term, or to '
  'infinity for a perpetuity, at every rate including zero for finite terms. Extending the term by a year adds that year of discounted payments.',
  'all interest rates, listed terms up to 80 years and payment frequencies', 'tests fix one rate and term',
  'interest.py', 'closed form @ interest.py Interest.annuity')
P('P05', 'Means, variances and covariances follow the laws of probability',
  'The helpers for means, variances and covariances return exactly the moments of the random variables they describe: weighted sums of two variables, products, two-valued '
  'variables, binomial counts, and mixtures of two binomials whose common probability is itself random. Probabilities outside [0,1] are rejected.',
  'all probabilities and values; numbers of trials at least 1', 'tests evaluate single numerical cases', 'life.py',
  'moment formulas @ life.py Life.variance/covariance/bernoulli/binomial/mixture/conditional_variance')
P('P06', 'Portfolio percentiles and probabilities under the normal law are inverses',
  'For a portfolio of N independent risks with given mean and variance, the percentile at a probability and the probability of staying below that percentile are inverse to each other; '
  'the percentile exceeds the aggregate mean by the normal quantile times the standard deviation, which grows with the square root of N, and the median is the mean.',
  'all means, positive variances, probabilities and portfolio sizes', 'tests evaluate one or two portfolios', 'life.py',
  'normal approximation @ life.py Life.portfolio_percentile/portfolio_cdf')
P('P07', 'A survival model gives the same probabilities in whatever form it is specified',
  'Whether a lifetime is specified by its survival function, lifetime density, force of mortality or number of lives, the survival and death probabilities, density, force and lives that are derived '
  'from it agree with each other and with the specification. Survival is certain over zero years, multiplies over consecutive periods, and deferred and multi-year death probabilities are the '
  'differences of survival probabilities, also at select durations and beyond the last age.',
  'symbolic parameters of linear, constant-force and arbitrary tabular mortality, with ages, durations, deferrals as listed',
  'tests use single laws at single ages; each derived form must agree for every parameter and age', 'survival.py',
  'derivation between forms @ survival.py Survival.set_survival; probabilities @ survival.py Survival.p_x/q_x/p_r/f_x/mu_x')
P('P08', 'Expected future lifetimes and their moments are those of the lifetime',
  'Complete and curtate expectations of future lifetime, unlimited or limited to a term, and their second moments and variances, equal the sums or integrals of the survival distribution they are defined by, at '
  'select durations and for terms reaching past the last age. They satisfy the one-year recursion and split additively at any intermediate duration; life tables give the same values.',
  'every mortality rate or number of lives in tables of 5 to 120 ages, ages, durations and limits as listed',
  'tests check single numerical cases of the unlimited mean', 'lifetime.py lifetable.py', 'moments @ lifetime.py Lifetime.e_x; from table @ lifetable.py LifeTable.e_x')
P('P09', 'Fractional-age probabilities follow the chosen assumption between birthdays',
  'Between integer ages, survival, deferred deaths, lives, density and force of mortality follow exactly uniform deaths or a constant force within each year of age, as chosen, for every fraction and '
  'for periods that start and end inside different years; at whole ages and durations they agree with the integer-age table. Expected lifetimes within a year, and their approximation from the curtate expectation, follow the same assumption.',
  'every one-year survival probability above 1e-3 and every fraction (symbolic), both assumptions, periods spanning up to 4 years',
  'tests sample single fractions such as 0.5', 'fractional.py', 'interpolation @ fractional.py Fractional.l_r/p_r/q_r/mu_r/f_r/E_r/e_r/e_approximate')
P('P10', 'A life table is completed with the only values consistent with what is given',
  'Filling a life table from any mix of given lives, deaths, survival and mortality rates produces only values implied by the given ones, produces all values that follow from them by forward or backward recursion, keeps the given values, '
  'and leaves unknown what is not determined. The given radix scales lives and deaths and nothing else.',
  'all consistent rates in tables of 4 years in all listed patterns of given cells, and of 50 years', 'tests fill one or two tables of literal numbers',
  'lifetable.py', 'fill loop @ lifetable.py LifeTable.fill_table/set_table')
P('P11', 'Life table queries are ratios and differences of its numbers of lives',
  'Survival, death and deferred death probabilities, numbers of deaths, pure endowments with their moments, and insurance and annuity values computed from a life table are the ratios and differences of its numbers of lives, '
  'for every age, duration and period including those ending beyond the last age, where nobody is left.',
  'all numbers of lives or rates in tables of 6 to 90 ages; listed ages, durations, deferrals and periods', 'tests read a few cells of literal tables',
  'lifetable.py', 'queries @ lifetable.py LifeTable.l_x/p_x/q_x/d_x/E_x')
P('P12', 'A select table is completed and queried consistently with its select rates',
  'A select and ultimate table is filled only with values implied by those given, mortality rates, lives, deaths, insurances, annuities and expected lifetimes by year of selection agreeing with the one-year recursions that define them and running into the '
  'ultimate values after the select period. Queries for select lives use the select rates during that period and the ultimate ones after it, including over fractional ages, '
  'for values of insurances, annuities, pure endowments and expected lifetimes alike.',
  'all select rates above 1/50 in tables of 3 to 5 ages and 1 to 3 select years, all patterns of given columns listed',
  'tests fill two or three literal tables', 'selectlife.py', 'fill loop and setters @ selectlife.py SelectLife.fill_table/set_table/set_select; queries @ selectlife.py SelectLife.l_x/p_x/q_x/A_x/a_x/E_x/e_x')
P('P13', 'Insurance values are expected discounted benefits',
  'The actuarial present value of every insurance (whole life, term, deferred, endowment, pure endowment, increasing, decreasing, or with arbitrary benefits) is the sum, or integral, over the time of death of the benefit then payable, '
  'discounted and weighted by the probability of dying then, plus any survival benefit. This holds at select durations, at zero interest and for terms and deferrals reaching past the last age, where terms are limited by it.',
  'every mortality rate and interest rate; tables of 4 to 90 ages; ages, durations, terms and deferrals as listed; continuous payment under uniform deaths or constant force',
  'tests evaluate textbook cases at one age and rate', 'insurance.py life.py lifetime.py',
  'valuation @ insurance.py Insurance.A_x; products @ insurance.py Insurance.whole_life_insurance/term_insurance/deferred_insurance/endowment_insurance/increasing_insurance/decreasing_insurance; pure endowment @ insurance.py Insurance.E_x')
P('P14', 'Insurance variances are second moments less squared means of the present value',
  'Higher moments of an insurance are expectations of the power of the discounted benefit, so the second moment is that at twice the force of interest, and its variance is the second moment less the squared mean: never '
  'negative and scaling with the square of the benefit. This covers whole life, term, deferred and endowment insurance and pure endowments, from survival models and life tables alike.',
  'every mortality and interest rate; tables of 3 to 45 ages; ages, durations, terms and deferrals as listed',
  'tests compute single variances', 'insurance.py lifetable.py', 'moments @ insurance.py Insurance.E_x/A_x/insurance_variance and each product with moment=2 or VARIANCE')
P('P15', 'Annuity values are expected discounted payments',
  'The actuarial present value of every life annuity (whole life, temporary, deferred, guaranteed or certain and life, increasing, decreasing, with arbitrary payments, due, immediate or continuous) is the sum or integral of the payments '
  'discounted and weighted by the probability of being alive (or by certainty during a guarantee) when they fall due. This holds at select durations, at zero interest and for terms past the last age.',
  'every mortality rate and interest rate; tables of 4 to 90 ages; ages, durations, terms and deferrals as listed; continuous payment under uniform deaths or constant force',
  'tests evaluate textbook cases at one age and rate', 'annuity.py',
  'valuation @ annuity.py Annuity.a_x; products @ annuity.py Annuity.whole_life_annuity/temporary_annuity/deferred_annuity/certain_life_annuity/increasing_annuity/decreasing_annuity; immediate @ annuity.py Annuity.immediate_annuity')
P('P16', 'Insurance and annuity twins convert into each other, with matching variances',
  'The annuity and insurance twin conversions are inverse to each other at every positive interest rate and turn the value of a whole life or endowment insurance into that of the matching annuity and back, discrete and continuous. '
  'The variance of the present value of a whole life, temporary or immediate annuity is that of the payments actually received until death or expiry, at every rate including zero, and scales with the square of the benefit.',
  'all rates and mortality in tables of 3 to 80 ages; ages, durations and terms as listed; continuous payment under uniform deaths', 'tests evaluate single cases at one rate',
  'annuity.py', 'twins @ annuity.py Annuity.annuity_twin/insurance_twin; variance @ annuity.py Annuity.annuity_variance/whole_life_annuity/temporary_annuity/immediate_annuity')
P('P17', 'Percentiles, times and probabilities of present values are mutually consistent',
  'For the present value of a whole life insurance or annuity, the value at a time of death is that of the benefit or payments made by then; in the continuous case time, value and probability convert into each other without loss, and '
  'percentiles are the values at the time when that share has died (or survives). For yearly payment percentiles are the smallest value with at least the given probability. The expected value of each single year\'s benefit adds up to the insurance or annuity.',
  'all probabilities, times, rates (zero for annuities) under constant force, linear and piecewise linear survival over 4 years; an exact root stands for the root finder', 'tests read two percentiles',
  'insurance.py annuity.py', 'insurance random variable @ insurance.py Insurance.Z_t/Z_from_t/Z_from_prob/Z_to_t/Z_to_prob/Z_x; annuity random variable @ annuity.py Annuity.Y_t/Y_from_t/Y_from_prob/Y_to_t/Y_to_prob/Y_x')
P('P18', 'Net premiums make expected premiums equal expected benefits',
  'The level net premium of any insurance or annuity, deferred or limited in its term or payment period, with an endowment, further initial costs or a refund of premiums on death, has an actuarial present value equal to that of all it pays for. '
  'The shortcuts from an insurance factor, an annuity factor or both give this same premium at all positive rates, and recover the factors from the premium.',
  'all mortality and interest rates and amounts in tables of 4 to 45 ages; ages, durations, terms, deferrals and payment periods as listed; continuous under uniform deaths',
  'tests solve single textbook premiums', 'premiums.py', 'net premium @ premiums.py Premiums.net_premium; shortcuts @ premiums.py Premiums.premium_equivalence/insurance_equivalence/annuity_equivalence')
P('P19', 'Gross premiums exactly cover expected benefits and expenses',
  'At the gross premium the expected present value of premiums equals that of death and endowment benefits, refunds, settlement costs, and initial and renewal expenses per policy and per premium, whatever factors are given and with missing factors taken from their twin. '
  'Without expenses it is the net premium, and the expected loss of the policy, year by year of death, is zero.',
  'all factors, amounts and expense rates for which premiums exceed the expenses that go with them; tables of 5 to 30 ages', 'tests solve single textbook premiums',
  'premiums.py', 'gross premium @ premiums.py Premiums.gross_premium')
P('P20', 'Net policy values are future benefits less future net premiums',
  'The net policy value at any duration within the term is the expected present value of the benefits still to come less that of the net premiums still to come, for whole life, term, endowment and unequal endowment insurance, yearly or continuous, '
  'with terms limited by the last age. So it is nil at issue and the endowment at expiry, and moves from year to year by interest and mortality. Its variance (whole life and equal endowments only, others are refused) is that of the loss by year of death.',
  'all mortality and interest rates and amounts in tables of 4 to 40 ages; durations and terms as listed; continuous under uniform deaths',
  'tests compute single values', 'policyvalues.py', 'policy value @ policyvalues.py PolicyValues.net_policy_value/net_future_loss; variance @ policyvalues.py PolicyValues.net_policy_variance/net_variance_loss')
P('P21', 'Gross policy values follow all the cash flows of the contract',
  'The gross policy value is the expected present value, year by year of death, of claims with settlement costs, endowment and expenses still to come (initial ones only at issue) less premiums still to come; its variance is that of the same loss. '
  'It is nil at issue at the gross premium. A contract keeps the terms it is given, and its renewal terms, costs and profits are those of the same policy after the first year.',
  'all mortality and interest rates and contract amounts in tables of 4 to 40 ages; durations and terms as listed; continuous under uniform deaths',
  'tests compute single values', 'policyvalues.py', 'gross value @ policyvalues.py PolicyValues.gross_policy_value/gross_future_loss; variance @ policyvalues.py PolicyValues.gross_policy_variance/gross_variance_loss; terms @ policyvalues.py Contract')
P('P22', 'The future loss random variable agrees with its policy value and percentiles',
  'The loss on death at any time is that of the claims then paid, with expenses, less premiums paid by then, and on survival of the term that of the endowment less all premiums. Weighted by the probabilities of death it gives the gross policy value '
  'and variance at issue. It falls with the time of death when premiums exceed renewal expenses; then percentiles of a whole life policy are losses at the times survived with that probability, and the time (if yearly: first year of death) at which the loss falls to a given amount, and the probability of that, are recovered.',
  'all times of death, contract amounts and rates; constant force, linear and piecewise linear survival; an exact root stands for the root finder',
  'tests read two losses', 'policyvalues.py', 'loss @ policyvalues.py PolicyValues.L_from_t; percentiles @ policyvalues.py PolicyValues.L_from_prob/L_to_t/L_to_prob')
P('P23', 'Reserves move from year to year by premiums, expenses, interest and claims',
  'One year of the reserve recursion, forward or backward, keeps the balance: reserve plus premium less expenses, with interest, pays the death benefit (and the reserve too if included) for those who die and the reserve of survivors. Reserves that are given are kept, unknown ones are not invented. '
  'A filled table has every year linked this way, with initial expenses in the first year only; it gives the gross policy values when filled at the gross premium, and the net ones at the net premium.',
  'all given reserves, premiums, benefits, expenses, rates and mortality; 1 to 25 years', 'tests solve single years',
  'reserves.py', 'recursion @ reserves.py Reserves.t_V/t_V_forward/t_V_backward; table @ reserves.py Reserves.set_reserves/fill_reserves')
P('P24', 'Interim reserves interpolate a policy year consistently from both ends',
  'Within a policy year the interim reserve accumulates the reserve and premium at its start and provides for claims paid at its end, under the fractional age assumption chosen; computed from the end of the year it discounts the same cash flows. '
  'Both agree whenever the two yearly reserves satisfy the yearly recursion, and need only the reserve at their own end of the year, being unknown without it.',
  'every fraction of the year (symbolic), all reserves, premiums, benefits, rates and mortality, uniform deaths and constant force', 'tests sample two fractions',
  'reserves.py', 'interim reserves @ reserves.py Reserves.r_V_forward/r_V_backward')
P('P25', 'Full preliminary term reserves defer the first year and then follow net premiums',
  'The full preliminary term premium of the first year pays exactly for that year of insurance and the renewal premiums for the rest, so together they pay for all benefits. The policy value is nil until the end of the first year and afterwards the net policy value of a policy issued a year later.',
  'all mortality and interest rates and benefits in tables of 4 to 35 ages; whole life, term and endowment of the terms listed', 'tests compute single values',
  'reserves.py', 'modified reserves @ reserves.py Reserves.FPT_premium/FPT_policy_value')
P('P26', 'Whatever the recursion engine derives follows from the facts it was given',
  'Any survival or mortality probability, expected lifetime, pure endowment, insurance, annuity, or increasing or decreasing insurance that Recursion derives from given facts equals the value in every model in which these facts hold, whatever ages, terms, deferrals, moments and amounts they are given or asked for. '
  'The standard consequences of one to three facts (chain rules, one-year recursions either way, twins, endowments less terms, moments, differences of deferred values) are found, at any benefit amount.',
  'every mortality over four years, every value thereafter and every positive rate (symbolic); all pairs of 37 kinds of facts against 36 queries, triples of lifetimes, and 100 cases that must be found; depths 1 to 3',
  'tests check single textbook recursions at one set of numbers', 'recursion.py',
  'rules @ recursion.py Recursion._q_x/_p_x/_e_x/_E_x/_A_x/_a_x/_IA_x/_DA_x; facts @ recursion.py Recursion.set_q/set_p/set_e/set_E/set_A/set_a/set_IA/set_DA; queries @ recursion.py Recursion.whole_life_insurance/term_insurance/endowment_insurance/deferred_insurance/whole_life_annuity/temporary_annuity/deferred_annuity/increasing_insurance/decreasing_insurance')
P('P27', 'Closed forms of the mortality laws agree with their definitions',
  'Under the beta, uniform, Makeham and Gompertz laws all survival functions, at whole and fractional ages and select durations, are those of the one lifetime given by the force of mortality of the law: survival, deferred mortality, force, density, lives, and curtate lifetimes. '
  'Complete lifetimes (limited or not, with variances) under the beta and uniform laws, and insurances, pure endowments and annuities under the uniform law (yearly and continuous, moments and variances, any amount and term) are their expected values; the yearly ones of short terms under every law.',
  'all parameters of the laws, times, rates and amounts (symbolic); oldest ages 60, 62, 100; ages and terms as listed', 'tests evaluate single textbook values',
  'mortalitylaws.py', 'laws @ mortalitylaws.py Beta/Uniform/Makeham/Gompertz; fractional ages @ mortalitylaws.py MortalityLaws; shortcuts @ mortalitylaws.py Uniform.e_x/E_x/whole_life_insurance/term_insurance')
P('P28', 'Under a constant force every value is that of the memoryless lifetime',
  'Under a constant force of mortality survival functions, at whole and fractional ages, and continuous insurances, annuities, pure endowments and lifetimes do not depend on age and are those of an exponential lifetime, in every moment and variance, for any amount, term and deferral, also at zero interest. '
  'Curtate lifetimes and yearly insurances of the listed terms follow from its yearly survival probability, and percentile times are those survived with the given probability.',
  'all forces of mortality and interest, amounts and times (symbolic) in the stated ranges; ages and terms as listed', 'tests evaluate single textbook values',
  'constantforce.py', 'shortcuts @ constantforce.py ConstantForce.e_x/E_x/whole_life_insurance/term_insurance/whole_life_annuity/temporary_annuity; percentiles @ constantforce.py ConstantForce.Z_t/Y_t')
P('P29', 'Extra risks change one-year mortality exactly as specified',
  'An extra risk adds to or multiplies the force of mortality, multiplies the mortality rate (never beyond one) or rates the age, so that the one-year survival probability is that of the life times exp(-extra), to the power extra, complementary to the multiplied rate, or that of a life so many years older; without one it is unchanged. '
  'Survival and mortality are complementary at every age and select duration and in the tables of rates, and the life itself is unchanged. Negative amounts and unknown kinds of risk are rejected.',
  'all mortality rates and extra amounts up to 5 (symbolic); life tables, select tables, survival functions and mortality laws at the listed ages', 'tests rate one age of one table',
  'extrarisk.py', 'rated mortality @ extrarisk.py ExtraRisk.p_x/q_x; tables of rates @ extrarisk.py ExtraRisk.__getitem__')
P('P30', 'Values with payments m times a year are exact expected discounted payments',
  'With m payments a year (at positive interest), insurances pay at the end of the m-th of a year of death and annuities at the start (or, if immediate, end) of each m-th, weighted by fractional-age survival under the model\'s assumption: whole life, term, deferred, endowment and pure endowment, first and second moments, with the given benefit and endowment amounts or a benefit function of time, and whole life, temporary, deferred and immediate annuities equal these sums for every age, duration, term (or none) and deferral, terms beyond the last age included. '
  'Variances are second moments less squared first moments, annuity variances those of the twin insurance; twins convert both ways; m-thly survival, mortality and discount factors agree with the yearly ones; frequency zero means continuous.',
  'all one-year survival probabilities (table of up to 4 ages), interest rates and amounts (symbolic); listed frequencies, terms and deferrals', 'tests evaluate three textbook values',
  'mthly.py', 'm-thly values @ mthly.py Mthly.A_x/whole_life_insurance/term_insurance/deferred_insurance/endowment_insurance; annuities @ mthly.py Mthly.whole_life_annuity/temporary_annuity/deferred_annuity/immediate_annuity; probabilities @ mthly.py Mthly.p_m/q_m/Z_m')
P('P31', 'Uniform-deaths shortcuts for m-thly payments equal the exact values',
  'When deaths are uniform over each year (and interest is positive), the UDD shortcuts give the same values as adding up the discounted payments in every m-th of a year: whole life, term, deferred and endowment insurances with their second moments and variances, whole life, temporary, deferred and immediate annuities and their variances, at every age and duration, term and deferral, for any number of payments a year and, with frequency zero, for benefits at the moment of death and continuous annuities. '
  'The factors alpha and beta are i d/(i_m d_m) and (i - i_m)/(i_m d_m).',
  'all one-year survival probabilities (table of up to 4 ages), interest rates and amounts (symbolic); listed frequencies, terms and deferrals', 'tests evaluate single values',
  'udd.py mthly.py', 'interest factors @ udd.py UDD.alpha/beta; insurances @ udd.py UDD.whole_life_insurance/term_insurance/endowment_insurance; annuities @ udd.py UDD.whole_life_annuity/temporary_annuity/deferred_annuity')
P('P32', 'Woolhouse values are the yearly values with exactly the stated correction',
  'The Woolhouse whole life annuity with m payments a year is the yearly annuity-due less (m-1)/2m and, with three terms, less (m^2-1)/12m^2 of the force of mortality plus the force of interest, the force of mortality being the one given, a function of age, that of the model, or the average of the surrounding years\' (m zero: the limit, continuous). '
  'Temporary and deferred annuities are differences of these discounted for interest and survival, and whole life, term, endowment and deferred insurances are their twins, for every age, duration, term (zero included, or beyond the last age) and deferral, proportional to the benefit amount.',
  'all one-year survival probabilities (table of up to 5 ages), forces of mortality, interest rates and amounts (symbolic); listed frequencies, terms and deferrals', 'tests evaluate single values',
  'woolhouse.py mthly.py', 'correction @ woolhouse.py Woolhouse.whole_life_annuity/mu_x; differences @ woolhouse.py Woolhouse.deferred_annuity/temporary_annuity; twins @ woolhouse.py Woolhouse.whole_life_insurance/term_insurance/endowment_insurance/deferred_insurance')
P('P33', 'The standard ultimate table follows its survival law at any interest rate',
  'The standard ultimate life table has radix times the Makeham survival probability (A = 0.00022, B = 0.0000027, c = 1.124 of the published table) as lives at every age from its first to its last, or radix times whatever survival function it is constructed with; its mortality, fractional ages, insurances, annuities, endowments and premiums at any interest rate are those of that survival, and its columns q, p, a and A list them for every age but the last.',
  'all radixes, interest rates, one-year survival probabilities of tables of 4 ages (symbolic); the published law at listed ages 20-130', 'tests sample the table at 5% interest',
  'sult.py', 'construction @ sult.py SULT.__init__; columns @ sult.py SULT.__getitem__')
P('P34', 'Values follow the latest settings of their own model, whatever happened before',
  'After any sequence of changing interest, changing mortality (a survival function, or the facts given to a recursion, of which the last given counts; a select table set again, after its interest) and asking for values, on several models at once, every value is that of the current settings of its own model: asking changes nothing, models do not affect each other, and m-thly, UDD, Woolhouse and extra-risk models built on a life leave it unchanged and follow its later changes. Looking at tables changes nothing. '
  'Contracts hold their own terms as last set, renewals and premium terms being copies, and tables of reserves belong to their own life and do not change when filled again.',
  'all sequences of up to 3 operations (4 in the thorough check) on two models, all survival probabilities, interest rates and amounts (symbolic)', 'tests build each model once and ask once',
  'survival.py lifetable.py selectlife.py recursion.py policyvalues.py reserves.py interest.py', 'settings @ survival.py Survival.set_survival; select tables @ selectlife.py SelectLife.set_table; facts @ recursion.py Recursion._db_put; contracts @ policyvalues.py Contract.set_contract/renewals; reserves @ reserves.py Reserves.fill_reserves')
P('P35', 'Plots draw exactly the values of the model',
  'Plots of the present value of insurances and annuities and of the future loss draw, at each time up to the stated end (or the last age), the benefit at that time times the present value at that time (the loss for the contract), annotate and return that value at the time asked for (nothing if none), and on the second axis the survival probability of the life at its own duration, so that annotations lie on the curves and name the numbers they mark; plots of reserves draw the given reserves by year, and nothing where none is given.',
  'all survival probabilities, interest rates, benefits, contract terms, reserves and fractions of a year (symbolic); listed ages and end times, discrete and continuous, with and without a second axis', 'tests only draw two plots without looking at them',
  'insurance.py annuity.py policyvalues.py reserves.py', 'plots @ insurance.py Insurance.Z_plot; annuities @ annuity.py Annuity.Y_plot; losses @ policyvalues.py PolicyValues.L_plot; reserves @ reserves.py Reserves.V_plot')
P('P36', 'Tables list the values of the functions they are named for',
  'Each cell of a table returned as a data frame is the value of the quantity named by its column at the age (time, year after selection, frequency) of its row, to the digits shown: lives, mortality and the insurance, annuity and endowment columns of the standard ultimate table for the ages asked for, at its own interest rate; the columns of a life table; any column of a select table; reserves by year; nominal rates and UDD factors by frequency; normal quantiles. Rows and columns are in order and complete, and cells with no value are missing.',
  'all survival probabilities, interest rates, radixes, reserves and probabilities (symbolic); listed ages and columns', 'tests compare whole printed tables for one law and one rate at most',
  'sult.py lifetable.py selectlife.py reserves.py udd.py life.py', 'standard table @ sult.py SULT.frame; lives @ lifetable.py LifeTable.frame; select @ selectlife.py SelectLife.frame; reserves @ reserves.py Reserves.reserves_frame; factors @ udd.py UDD.interest_frame; quantiles @ life.py Life.quantiles_frame')
P('P37', 'Solving, integrating and differentiating give what they are named for',
  'Solving a function for a target returns a value at which the function equals the target (by roots or by least absolute difference), leaving a model that the function changes at the solution, starting inside the range of guesses from one no worse than either end; integrals and derivatives are those of the function given; terms add up with the whole of life absorbing any term, and a term after a deferral is cut at the last age and no sooner; closeness accepts equal values and rejects values that differ.',
  'all coefficients, solutions, limits, terms, ages and deferrals (symbolic) for the listed families of functions and ranges of guesses', 'tests solve a few functions once and never look at what the model is left at',
  'actuarial.py', 'solving @ actuarial.py Actuarial.solve; integrals @ actuarial.py Actuarial.integral; derivatives @ actuarial.py Actuarial.derivative; terms @ actuarial.py Actuarial.add_term/max_term; closeness @ actuarial.py Actuarial.isclose')
