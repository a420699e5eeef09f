F = ['-DVP_REAL=float']; D = ['-DVP_REAL=double']
T = ['-DVP_THR=1']
def FDT(f): return [(f, F), (f, D), (f, F + T), (f, D + T)]
BLAS = ['-lopenblas', '-llapacke']
PROPS = {
 'P01': dict(tus=[('p_smatrix.cpp', [])], quick_s=20, thorough_s=300,
   rule='random operation histories over a pool of three matrices (element type float/double/int/uint8, random sizes, bias column/row, own/external storage) checked after every step against a linear-buffer model; a history is non-trivial when it exercises at least 3 different operation kinds; triangular/binary/range cases non-trivial as labelled'),
 'P02': dict(tus=FDT('p_ew.cpp'), quick_s=25, thorough_s=300, libs=BLAS,
   rule='random sizes, bias layouts, scalars, thread counts, chunk orders and switching thresholds; non-trivial when the matrix has more than one element'),
 'P03': dict(tus=FDT('p_red.cpp'), quick_s=25, thorough_s=300, libs=BLAS,
   rule='random sizes, contents (with ties), bias layouts, thread counts, chunk orders and switching thresholds, generic entry points and their single/multi-threaded variants; non-trivial when the matrix has more than one element (find_k: k>1 or several batches)'),
 'P04': dict(tus=FDT('p_la.cpp'), quick_s=25, thorough_s=300, libs=BLAS,
   rule='random dimensions, contents, layouts (batch in rows/columns, bias) and scale factors; non-trivial when more than one element takes part'),
 'P05': dict(tus=FDT('p_act.cpp'), quick_s=25, thorough_s=300, libs=BLAS,
   rule='random sizes, pre-activation ranges (small, unit, wide, with exact zeros), bias layouts, targets, thread counts and thresholds over 27 activation types and 15 output losses; non-trivial when the matrix has more than one element'),
 'P06': dict(tus=FDT('p_opt.cpp'), quick_s=25, thorough_s=300, libs=BLAS,
   rule='optimizer kernels and grad_works objects with random settings driven through 1-8 updates with random gradients, setting changes and re-initialisation between steps; non-trivial when more than one step is made (kernels: more than one weight)'),
 'P07': dict(tus=[('p_thr.cpp', ['-DVP_SCHED=1']), ('p_thr.cpp', ['-DVP_SCHED=0'])], flags=['-fno-rtti'], quick_s=25, thorough_s=300,
   rule='random call sequences (construct, run, reduce, background tasks, exec, destroy) on pools of 1-6 workers; in the controlled variant every mutex, condition-variable and atomic operation is a scheduling point decided by the generator (uniform, sticky and priority-based schedules, spurious wakeups, timeouts); non-trivial when at least two threads were scheduled against each other'),
 'P08': dict(tus=FDT('p_rng.cpp'), flags=['-fno-rtti'], quick_s=20, thorough_s=300, libs=BLAS,
   rule='random generation calls, histories, seeds, sizes, thread counts, chunk orders and thresholds, with instrumented base generators whose values are all distinct, and random producer/consumer histories of the circular buffer; non-trivial when more than one value is produced'),
 'P09': dict(tus=[('p_grad.cpp', D + ['-DVP_ARCH=%d' % k]) for k in range(1, 14)], quick_s=30, thorough_s=400, libs=BLAS,
   rule='thirteen network families (deep, horizontal, nested vertical/horizontal, tiled, gated over data, gated over hidden layers, dropout, activation penalties, frozen layers and tiled packs, penalised gated packs with dropout, tiled gated packs, penalised layers inside packs) with generated sizes, receptive fields, gates, penalties, learning rates, batch sizes and step histories; non-trivial when at least 4 weight derivatives were compared and most of them were at differentiable points'),
 'P10': dict(tus=[('p_fwd.cpp', X + ['-DVP_ARCH=%d' % k]) for k in range(1, 14) for X in (F, D)], quick_s=25, thorough_s=300, libs=BLAS,
   rule='thirteen network families with generated sizes and wiring, driven through generated histories of initialisation, growth, one-shot and fixed-batch inference, training passes, updates and de-initialisation; non-trivial when at least two sample outputs were compared with the reference'),
 'P11': dict(tus=[('p_td.cpp', F), ('p_td.cpp', D)], quick_s=20, thorough_s=300, libs=BLAS,
   rule='generated data sets (every element unique) and histories of initialisation, epochs, walks, size queries and de-initialisation of in-memory, transformed and sub-sampled data; non-trivial when at least one complete epoch or walk was compared with the stored samples'),
 'P12': dict(tus=[('p_train.cpp', D + ['-DVP_ARCH=%d' % k]) for k in range(1, 14)] + [('p_train.cpp', F + ['-DVP_ARCH=%d' % k]) for k in (2, 6)], quick_s=25, thorough_s=300, libs=BLAS,
   rule='histories of train() calls with generated data, batch sizes, schedules, stop conditions, callbacks and interleaved inference and re-initialisation over thirteen network families; non-trivial when training steps were re-executed and at least two reports were checked'),
 'P13': dict(tus=[('p_eval.cpp', F), ('p_eval.cpp', D)], quick_s=20, thorough_s=300, libs=BLAS,
   rule='generated targets and predictions (ties, threshold values, one-hot and arbitrary), batch splits, sets and re-initialisations, whole training runs with the printing observer, and confusion matrices up to 2^28 per cell; non-trivial when at least one batch was counted'),
 'P14': dict(tus=[('p_norm.cpp', F), ('p_norm.cpp', D)] + [('p_lsuv.cpp', D + ['-DVP_ARCH=%d' % k]) for k in (1, 2, 3, 4, 7, 8)] + [('p_lsuv.cpp', F + ['-DVP_ARCH=1'])], quick_s=25, thorough_s=300, libs=BLAS,
   rule='generated data sets (ordinary, constant, already centred or normal columns), targets, tolerances, batch subsets and prior initialisations, in memory and transformed at run time, statistics in single or double precision; weight normalisation over six network families with per-layer settings; non-trivial when some statistic was outside its tolerance before and judged afterwards'),
 'P15': dict(tus=[('p_io.cpp', F), ('p_io.cpp', D)], quick_s=20, thorough_s=300, libs=BLAS,
   rule='generated data files (matrices, data sets, sequence sets; float/double; JSON matrices and data sets of real and integer elements), intact or with one named malformation or random damage; non-trivial when an intact file was compared element by element or a named malformation was judged'),
 'P16': dict(tus=[('p_ser.cpp', X + ['-DNNTL_MATLAB_AVAILABLE=1']) for X in (F, D)] + [('p_ser.cpp', D + ['-DVP_ARCH=%d' % k, '-DNNTL_MATLAB_AVAILABLE=1']) for k in range(1, 14)] + [('p_ser.cpp', F + ['-DVP_ARCH=3', '-DNNTL_MATLAB_AVAILABLE=1'])], quick_s=25, thorough_s=300, libs=BLAS,
   rule='generated trees of variables and structures written in several sessions and compared with a model of the file; data sets; thirteen network families saved and loaded between generated states and option sets; non-trivial when a tree of at least three nodes was read back, or the loaded network was compared with the saved one (or a foreign file was judged)'),
 'P17': dict(tus=FDT('p_winit.cpp'), flags=['-fno-rtti'], quick_s=20, thorough_s=300, libs=BLAS,
   rule='weight matrices of generated sizes filled by every scheme with single- and multi-threaded generators of generated seeds, and histories of initialisation (also with a failing scheme), de-initialisation, drop, re-initialisation and replacement of the weights of a network with nested packs; non-trivial when a matrix of more than 20 weights was judged or at least seven layer states were compared'),
 'P18': dict(tus=[('p_gc.cpp', D + ['-DVP_ARCH=%d' % k]) for k in range(1, 14)], quick_s=25, thorough_s=300, libs=BLAS,
   rule='thirteen network families with generated sizes, weights, data, batch sizes, amounts to check, ignored layers and prior states; in half of the cases one element of one gradient matrix of one layer is falsified on its way; non-trivial when the verdict was judged'),
 'P19': dict(tus=[('p_insp.cpp', D + ['-DVP_ARCH=%d' % k, '-DNNTL_MATLAB_AVAILABLE=1']) for k in range(1, 14)] + [('p_insp.cpp', F + ['-DVP_ARCH=4', '-DNNTL_MATLAB_AVAILABLE=1'])] + [('p_insp2.cpp', D + ['-DVP_ARCH=%d' % k]) for k in (1, 5, 9)], quick_s=25, thorough_s=300, libs=BLAS,
   rule='thirteen network families trained in one to three generated runs with a recording dumping inspector (generated dump conditions, layer lists, activity, batch sizes, momentum, inference and de-initialisation in between), in a third of the cases next to an uninspected twin; non-trivial when at least ten notifications were judged and at least one dumped field was compared'),
 'P20': dict(tus=[('p_allocnew.cpp', [])] + [('p_alloc.cpp', D + ['-DVP_ARCH=%d' % k]) for k in range(1, 14)] + [('p_alloc.cpp', F + ['-DVP_ARCH=4']), ('p_alloc2.cpp', F), ('p_alloc2.cpp', D)], flags=['-fno-rtti'], quick_s=25, thorough_s=300, libs=BLAS,
   rule='thirteen network families and the library containers, readers and data objects, with generated sizes and prior states; one generated allocation (or all from there on) of a call fails; non-trivial when the failure was reached'),
 'P21': dict(tus=[('p_util.cpp', [])], flags=['-fno-rtti'], quick_s=15, thorough_s=200, libs=BLAS,
   rule='random operation histories on the helper containers, lists, per-layer settings, options, call wrappers (three slots holding functors of six kinds), timers and tuples of 1-7 elements against simple models; non-trivial when the history has more than one step or element'),
 'P22': dict(tus=FDT('p_do.cpp'), flags=['-fno-rtti'], quick_s=20, thorough_s=300, libs=BLAS,
   rule='networks with dropout or alpha dropout (default and custom constants) on layers, horizontal and gated packs, driven through generated histories of settings, batch sizes, training and backward passes, inference and re-initialisation, and whole train() runs whose callbacks change the settings; non-trivial when at least two training passes were judged with some dropout on'),
}
