PROPS = {}
NA = {}
def prop(id, **kw): PROPS[id] = kw
def simple(src, q, t, profile='asan', **kw):
    return lambda tier: [dict(src=[src], profile=profile, cases=q if tier == 'quick' else t, **kw)]
def split(n, bins):
    """Compile and run the scenarios of each binary in n parts, in parallel."""
    return lambda tier: [dict(b, defs=b.get('defs', []) + ['-DMON_PARTS=%d' % n, '-DMON_PART=%d' % k], cases=b['cases'] // n) for b in bins(tier) for k in range(n)]
prop('C19', bins=simple('c19_traj.cpp', 4000, 400000),
     rule='one case = one random history (edits and queries) on arrays/trajectories compared step by step with an independent model; nontrivial = the model was compared to at least one evaluated value; distinct = distinct hash of the operation sequence and the observed values')
OMP = {'OMP_WAIT_POLICY': 'passive', 'KMP_BLOCKTIME': '0', 'OPENBLAS_NUM_THREADS': '1'}
R = 'one case = one seeded scenario instance run against the real code; nontrivial = at least one computed value was compared with the independent oracle; distinct = distinct hash of scenario, configuration and observed values'
prop('C20', bins=simple('c20_ctrl.cpp', 4000, 400000), rule=R)
prop('C21', bins=simple('c21_lin.cpp', 3000, 300000), rule=R)
prop('C28', bins=simple('c28_helpers.cpp', 2400, 100000), rule=R)
prop('C15', bins=simple('c15_integ.cpp', 1500, 100000), rule=R)
prop('C16', bins=simple('c16_disc.cpp', 3000, 200000), rule=R)
prop('C17', bins=simple('c17_sympl.cpp', 1600, 50000), rule=R)
prop('C18', bins=lambda tier: [
    dict(src=['c18_deriv.cpp'], profile='asan', cases=2400 if tier == 'quick' else 200000, only='numdiff,cppad,lin_raw,lin_continuous,lin_discrete,lin_small'),
    dict(src=['c18_deriv.cpp'], profile='asan', cases=300 if tier == 'quick' else 20000, only='cppad_threads')], rule=R)
prop('C09', bins=simple('c09_cons.cpp', 4000, 300000), rule=R)
prop('C10', bins=simple('c10_switch.cpp', 6000, 400000), rule=R)
prop('C07', bins=lambda tier: [dict(src=['c07_cost.cpp'], profile='asan', cases=3000 if tier == 'quick' else 300000, only='derivs_3_2,derivs_1_1,derivs_2_4,derivs_simple,selftest')], rule=R)
prop('C08', bins=lambda tier: [dict(src=['c07_cost.cpp'], profile='asan', cases=4000 if tier == 'quick' else 400000, only='history_3_2,history_1_1,history_2_4,value_derivs,file_3_2,file_1_1,file_term,file_other,simple')], rule=R)
NL = lambda only, q, t: (lambda tier: [dict(src=['c02_nloc.cpp'], profile='asan', cases=q if tier == 'quick' else t, only=only),
    dict(src=['c02_nloc.cpp'], profile='asan', defs=['-DDISC'], cases=q // 3 if tier == 'quick' else t // 3, only=only)])
prop('C02', bins=NL('history', 1200, 100000), rule=R)
prop('C03', bins=NL('merit,reference', 2000, 150000), rule=R)
prop('C04', bins=NL('lq', 800, 60000), rule=R)
prop('C01', bins=lambda tier: [dict(src=['c01_mp.cpp'], profile='tsan', cases=500 if tier == 'quick' else 40000, stall=60),
    dict(src=['c01_mp.cpp'], profile='asan', defs=['-DDISC'], cases=500 if tier == 'quick' else 40000, stall=60)], rule=R, technique='ThreadSanitizer/AddressSanitizer runs with injected delays; lock-step comparison of the multi-threaded with the single-threaded backend; watchdog for hangs')
prop('C05', bins=split(7, simple('c05_lqoc.cpp', 1200, 200000)), rule=R)
prop('C06', bins=split(4, simple('c06_lqr.cpp', 1600, 100000)), rule=R)
prop('C11', bins=split(4, simple('c11_filter.cpp', 3000, 200000)), rule=R)

prop('C12', bins=simple('c12_mpc.cpp', 1600, 150000), rule=R)
prop('C13', bins=split(3, lambda tier: [
    dict(src=['c13_dms.cpp'], profile='asan', cases=1500 if tier == 'quick' else 150000, only='nlp_2_1,nlp_3_2,nlp_1_3,init_guess', env=OMP),
    dict(src=['c13_dms.cpp'], profile='tsanomp', cases=250 if tier == 'quick' else 20000, only='nlp_2_1,nlp_3_2,nlp_1_3', shards=3, env=OMP)]), rule=R)
prop('C14', bins=split(2, simple('c13_dms.cpp', 240, 40000, only='dms_solve_2_1,dms_solve_3_2', env=OMP)), rule=R)

prop('C24', bins=lambda tier: [dict(src=['c24_sim.cpp'], profile='tsan', cases=1500 if tier == 'quick' else 20000, stall=60),
    dict(src=['c24_sim.cpp'], profile='asan', cases=800 if tier == 'quick' else 10000, stall=60)], rule=R, technique='ThreadSanitizer/AddressSanitizer runs of the two simulator threads with injected delays; recorded event log judged offline against an independent integration and the ordering rules; watchdog for hangs')
prop('C23', bins=simple('c23_settings.cpp', 4000, 300000), rule=R)
prop('C25', bins=simple('c25_joint.cpp', 4000, 300000), rule=R)
prop('C22', bins=split(2, lambda tier: [dict(src=['c22_clone.cpp'], profile='asan', cases=4000 if tier == 'quick' else 300000),
    dict(src=['c22_clone.cpp'], profile='tsan', cases=1500 if tier == 'quick' else 60000)]), rule=R, technique='twin-object oracle over seeded interleaved histories of originals and clones (same thread and two threads) under AddressSanitizer/UndefinedBehaviorSanitizer and ThreadSanitizer')
MG = 'ct_models/include/ct/models/'
prop('C26', bins=lambda tier: [
    dict(src=['c26_robots.cpp'], profile='asan', cases=700 if tier == 'quick' else 60000),
    dict(src=['c26_models.cpp', 'c26_ikhya.cpp', 'c26_ikirb.cpp'], extra=['ct_models/src/Quadrotor/%s.cpp' % f for f in ('quadrotor_ode', 'A_quadrotor', 'B_quadrotor')], profile='asan', cases=3000 if tier == 'quick' else 200000),
    dict(src=['c26_models.cpp'], defs=['-DC26CG', '-D_GLIBCXX_ASSERTIONS', '-g0'], profile='plain', cases=1000 if tier == 'quick' else 60000,
         extra=[MG + f for f in ('HyA/codegen/HyALinearizedForward.cpp', 'HyA/codegen/HyALinearizedReverse.cpp', 'HyA/codegen/HyAInverseDynJacForward.cpp', 'HyA/codegen/HyAInverseDynJacReverse.cpp', 'HyA/codegen/HyAInverseDynHessian.cpp')])], rule=R)

def c27(tier):
    out = []
    for src, n, kw in [('c02_nloc.cpp', 300, {}), ('c05_lqoc.cpp', 400, {}), ('c06_lqr.cpp', 300, {}), ('c07_cost.cpp', 900, {}),
                       ('c09_cons.cpp', 800, {}), ('c10_switch.cpp', 800, {}), ('c11_filter.cpp', 600, {}), ('c12_mpc.cpp', 300, {}), ('c13_dms.cpp', 200, dict(env=OMP)), ('c15_integ.cpp', 400, {}),
                       ('c16_disc.cpp', 600, {}), ('c17_sympl.cpp', 300, {}), ('c18_deriv.cpp', 400, dict(only='numdiff,cppad,lin_raw,lin_continuous,lin_discrete,lin_small')), ('c19_traj.cpp', 1000, {}), ('c20_ctrl.cpp', 800, {}), ('c21_lin.cpp', 600, {}),
                       ('c22_clone.cpp', 600, {}), ('c23_settings.cpp', 600, {}), ('c25_joint.cpp', 600, {}), ('c28_helpers.cpp', 600, {})]:
        n = n if tier == 'quick' else n * 60
        out.append(dict(src=[src], profile='asan', cases=n, shards=4, **kw))
        out.append(dict(src=[src], profile='zero', cases=n, shards=4, twin=len(out) - 1, notwin=NOTWIN, **kw))
    return out
NOTWIN = r'gaussian|uniform|cycle_int'   # random_device noise, wall-clock MPC timing
prop('C27', bins=c27, rule='one case = one seeded scenario instance of any component run under AddressSanitizer, UndefinedBehaviorSanitizer and assertions, and again in a second build with other contents of fresh stack and heap memory; nontrivial = computed values were observed; distinct = distinct hash of the observed values', san_only=True,
     technique='AddressSanitizer + UndefinedBehaviorSanitizer + assertions over the workloads of all components; differential execution with different fillings of fresh memory')
prop('C29', bins=simple('c29_nlp.cpp', 1600, 120000), rule=R)
prop('C30', bins=lambda tier: [dict(src=['c30_float.cpp'], profile='asan', defs=['-DPART=%d' % k], cases=(400 if k == 1 else 160) if tier == 'quick' else 60000) for k in (1, 2, 3, 4)] +
     [dict(src=['c30_fix.cpp'], profile='asan', defs=['-DPART=%d' % k], cases=140 if tier == 'quick' else 40000) for k in (1, 2)], rule=R)
