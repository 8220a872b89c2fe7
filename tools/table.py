"""Source of properties.jsonl and MANIFEST.json (python3 tools/table.py writes both)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'optax/_src/'
T = [
# id, title, statement, over, quantifier, tests, files, [(mechanism, where)]
('C01', 'trace and ema keep the documented first-moment averages',
 'For any decay, any gradients and any number of updates, momentum emits exactly g_t + decay * (previous accumulator) (Nesterov: g_t + decay * new accumulator), and the exponential moving average keeps decay * average + (1 - decay) * g_t elementwise, starting from zero. '
 'With debiasing the emitted value is the average divided by 1 - decay^t, t being the number of updates including this one, without debiasing it is the average itself; the stored average is never debiased. '
 'Tree structure and shapes are preserved, an accumulator dtype changes only the stored accumulator, and the update counter advances by one and saturates at 2^31-1.',
 ['inputs', 'histories', 'configurations'], 'every decay, count, state, gradient tree and 3-step history within the shape bounds',
 'two constants on one tree; never an arbitrary state or a large count', ['transform.py', 'numerics.py'],
 [('trace', 'transform.py: trace'), ('ema', 'transform.py: ema, _update_moment, _bias_correction')]),
('C02', 'adam, belief, yogi and radam scale by the published adaptive estimates',
 'Each update sets m = b1*m + (1-b1)*g and v = b2*v + (1-b2)*e^2 (e = g for Adam and RAdam, e = g - previous m for belief) and emits m^/(sqrt(v^ + eps_root) + eps) with m^, v^ divided by 1 - b^t, t being the 1-based number of this update. '
 'RAdam multiplies by the rectification sqrt((r_t-4)(r_t-2)r_inf/((r_inf-4)(r_inf-2)r_t)) when r_t reaches the threshold and emits m^ otherwise. '
 'Moments and the counter start at zero, the counter advances by one and saturates, and second moments stay non-negative.',
 ['inputs', 'histories', 'configurations'], 'every gradient, state, decay pair, eps, eps_root, count and 3-step history within the shape bounds',
 'a rosenbrock convergence test and one comparison against a reference trajectory', ['transform.py', 'numerics.py'],
 [('moments and bias correction', 'transform.py: _update_moment, _bias_correction'), ('scalings', 'transform.py: scale_by_adam, scale_by_belief, scale_by_yogi, scale_by_radam')]),
('C03', 'rss, rms and stddev normalise by their accumulated second moments',
 'Scaling by root sum of squares adds g^2 to an accumulator starting at the initial value and emits g / sqrt(acc + eps) where acc > 0 and 0 elsewhere; RMS scaling keeps decay*v + (1-decay)*g^2 and emits g / sqrt(v + eps); standard-deviation scaling additionally keeps decay*m + (1-decay)*g and emits g / sqrt(v - m^2 + eps). '
 'Accumulators are per element, start at the given initial scale (first moment at zero), never become negative, and the variance estimate v - m^2 stays non-negative from any reachable state. '
 'Updates keep the structure, shapes and sign of the gradients.',
 ['inputs', 'histories', 'configurations'], 'every gradient, accumulator, decay, eps and initial value; 3-step histories',
 'a rosenbrock-style convergence test at one setting', ['transform.py'], [('scalings', 'transform.py: scale_by_rss, scale_by_rms, scale_by_stddev')]),
('C04', 'SM3 accumulates and covers second moments as published',
 'For every tensor of rank at least one, SM3 estimates each element\'s second moment as the minimum of its per-axis covers (times b2) plus (1-b2) (or 1 if b2 = 1) times the squared gradient, and emits the b1-momentum (b1*m + (1-b1)*g/sqrt(v + eps), zero where v is zero). '
 'Each axis cover then becomes the maximum of the estimates over the other axes, so a cover bounds every estimate it covers and, with b2 = 1, never decreases. '
 'State starts at zero and shapes follow the parameters.',
 ['inputs', 'histories', 'configurations'], 'every gradient, cover, momentum, b1, b2, eps; leaf ranks 1-3; 2-step histories',
 'one trajectory without an oracle', ['transform.py'], [('sm3', 'transform.py: scale_by_sm3')]),
('C05', 'Ready-made optimisers equal their documented compositions and defaults',
 'Every ready-made optimiser (sgd, adam, adamw, adagrad, adabelief, fromage, lamb, noisy_sgd, radam, rmsprop, sm3, yogi, dpsgd) produces, for any gradients, parameters, hyperparameters, step and learning rate (a number or a schedule of the 0-based step), exactly the updates of the documented chain of primitive transformations: its scaling, then any weight decay, trust ratio or noise, then multiplication by minus the learning rate. '
 'Omitted arguments take the documented default values, and optional momentum, Nesterov and weight decay are honoured. '
 'A learning-rate schedule is read at 0 for the first update and advances by one per update.',
 ['inputs', 'histories', 'configurations'], 'every gradient, parameter, step, hyperparameter and learning-rate schedule; two-step histories plus closed forms over three steps',
 'convergence on two toy problems with one hyperparameter setting each', ['alias.py', 'transform.py', 'combine.py'],
 [('aliases', 'alias.py'), ('learning-rate sign and schedule', 'alias.py: _scale_by_learning_rate')]),
('C06', 'scale_by_schedule and step counters count every update and saturate',
 'Scaling by a schedule multiplies every element of the n-th update (from 0) by the schedule evaluated at n, whatever the schedule, and keeps leaf dtypes and structure. '
 'Every transformation with a 32-bit step counter starts it at zero, adds exactly one per update, never resets or skips, and stays at 2^31-1 once there (never wrapping negative).',
 ['inputs', 'schedules', 'histories'], 'every count up to 2^31-1, every schedule, every update tree',
 'a handful of small counts', ['transform.py', 'numerics.py', 'schedule.py'], [('schedule scaling', 'transform.py: scale_by_schedule'), ('saturation', 'numerics.py: safe_int32_increment')]),
('C07', 'chain applies its transformations in order and keeps their states apart',
 'A chain of n transformations is their sequential composition: the updates of one are the input of the next in argument order, each sees the same parameters and its own state only, and the new chain state is the tuple of new member states in the same order. '
 'Initialisation gives every member the original parameters; a chain of one behaves as that member, the identity returns the updates unchanged, and nested chains behave as flat ones.',
 ['programs', 'inputs', 'histories'], 'arbitrary members (uninterpreted functions), chain lengths 0-4, arbitrary states, 2-step histories',
 'two fixed chains', ['combine.py', 'base.py'], [('chain', 'combine.py: chain'), ('identity', 'base.py: identity')]),
('C08', 'apply_if_finite skips non-finite steps, and only a bounded number in a row',
 'If any element of the updates is NaN or infinite and the number of consecutive non-finite steps including this one does not exceed the allowed maximum, the emitted updates are all zero and the inner state is unchanged; otherwise the inner transformation is applied as if unwrapped. '
 'The consecutive-error counter increments on each non-finite step and returns to zero on a finite one, the total counter only increments on non-finite steps, and the last-finite flag tells whether the latest updates were finite. '
 'All counters start at zero with the flag true.',
 ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every element independently finite, NaN or infinite; any inner transformation; any counter values; 4-step histories',
 'one scripted NaN sequence with one optimiser', ['wrappers.py'], [('finite test and selection', 'wrappers.py: apply_if_finite')]),
('C09', 'MultiSteps updates once per k mini-steps with the mean gradient',
 'Over each k = schedule(gradient step) consecutive mini-steps the first k-1 emit all-zero updates and leave the inner state untouched, and the k-th emits what the inner optimiser (given the parameters) produces for the mean (or, if so configured, the sum) of those k gradients. '
 'Afterwards the mini-step counter and accumulator return to zero and the gradient step increases by one; non-final steps only advance the mini-step and add the gradient to the accumulator, and has-updated is true exactly after a final step. '
 'A NaN or infinity in one window never leaks into the next.',
 ['inputs', 'histories', 'schedules', 'programs'], 'any inner optimiser and k schedule, any state, gradients finite or not, histories of up to 2k mini-steps',
 'fixed k and one inner optimiser', ['wrappers.py'], [('accumulation', 'wrappers.py: MultiSteps.update'), ('has_updated', 'wrappers.py: MultiSteps.has_updated')]),
('C10', 'masked applies the inner transformation to exactly the selected leaves',
 'With any boolean mask tree (full, prefix or computed by a callable), the selected leaves of the updates, and of the parameters when given (even falsy ones), go through the inner transformation as if the others did not exist. '
 'Unselected leaves are emitted bit-for-bit unchanged even when NaN, and have no slot in the inner state; the tree structure is preserved across init and update.',
 ['configurations', 'inputs', 'programs', 'histories'], 'all masks and prefixes over 3-leaf trees, any inner transformation, params given or None',
 'a few masks with one inner transformation', ['wrappers.py'], [('masking', 'wrappers.py: masked, mask_pytree')]),
('C11', 'maybe_update runs the inner transformation only at the chosen steps',
 'At step n (from 0) the inner transformation is applied to updates, its state and the parameters iff the predicate holds at n; otherwise the updates are returned unchanged and the inner state is kept. '
 'The step counter increases by one on every update in both cases.',
 ['inputs', 'schedules', 'histories', 'programs'], 'any predicate of the step, any inner transformation, any step, 3-step histories',
 'one periodic predicate', ['wrappers.py'], [('conditional update', 'wrappers.py: maybe_update')]),
('C12', 'flatten shows the inner transformation one vector and restores the tree',
 'The inner transformation sees the concatenation of all leaves of updates (and of parameters, at init and update) raveled row-major in tree order as one 1-D vector, and its output vector is split back to the original structure, shapes and order. '
 'Hence any elementwise transformation is unaffected by flattening, for any tree including scalars, zero-size leaves and a bare array.',
 ['inputs', 'programs', 'histories'], 'any inner transformation, a catalogue of tree shapes, params given or None, 2-step histories',
 'one optimiser on one tree', ['wrappers.py'], [('ravel/unravel', 'wrappers.py: flatten')]),
('C13', 'lookahead synchronises slow and fast parameters every k steps',
 'Every update runs the fast optimiser on the gradients, its state and the fast parameters; in the first k-1 steps of a period applying the emitted updates moves the fast parameters by that fast update and leaves the slow ones unchanged. '
 'On every k-th step both become slow + slow_step_size * (fast after its update - slow); the step counter counts modulo k and the fast optimiser state continues, or restarts from its initial state if reset_state is set. '
 'Fast parameters being NaN or infinite between synchronisations do not touch the slow ones.',
 ['inputs', 'histories', 'programs', 'configurations'], 'any fast optimiser, slow step size, state, periods 1-5 (symbolic for the counter), 2-period histories',
 'one small numeric example', ['lookahead.py'], [('sync', 'lookahead.py: _lookahead_update'), ('state', 'lookahead.py: lookahead')]),
('C14', 'apply_every emits the sum of each window of k updates, zeros in between',
 'Over each window of k consecutive updates the first k-1 calls emit zeros and the k-th emits the sum of the k updates of that window, elementwise; nothing is lost or carried over, so the emitted total always equals the sum over completed windows. '
 'The counter runs modulo k from zero, and NaN or infinity in one window does not reach the next.',
 ['inputs', 'histories', 'configurations'], 'k up to 1000 symbolic, any position in the window and accumulator, 2k-step histories',
 'sgd accumulation for one k', ['transform.py'], [('window', 'transform.py: apply_every')]),
('C15', 'clip and clip_by_global_norm bound the updates and change nothing else',
 'Elementwise clipping maps every element to the nearest value in [-max_delta, max_delta], so infinities clip to the bound and NaN stays NaN. '
 'Global-norm clipping leaves updates whose joint L2 norm over all leaves is below the maximum unchanged and otherwise scales all leaves by the same factor max/norm, so the result has norm at most the maximum and the same direction.',
 ['inputs', 'configurations'], 'every finite or special element, every bound, every tree within the shape bounds',
 'two numeric cases', ['clipping.py', 'linear_algebra.py'], [('clip', 'clipping.py: clip, clip_by_global_norm'), ('norm', 'linear_algebra.py: global_norm')]),
('C16', 'Adaptive gradient clipping bounds each unit relative to its parameters',
 'For each output unit (all elements of a tensor with at most one non-unit axis; per column, along axis 0, of a matrix or rank-3 tensor; per last-axis slice of a rank-4 tensor) a gradient whose norm exceeds clipping * max(parameter norm, eps) is rescaled to exactly that norm, keeping its direction, and any other is returned unchanged; units never influence each other. '
 'Missing parameters and ranks above four are refused, and eps defaults to 0.001.',
 ['inputs', 'configurations'], 'every finite gradient/parameter pair of ranks 0-4 within the shape bounds, every clipping and eps',
 'one numeric comparison per rank', ['clipping.py'], [('unit norms', 'clipping.py: unitwise_norm, unitwise_clip, adaptive_grad_clip')]),
('C17', 'Constraints: parameters stay non-negative, NaNs become zeros',
 'After keeping parameters non-negative, p + update is never negative and equals max(p + original update, 0) elementwise, leaving updates unchanged where the sum is already non-negative. '
 'Zeroing NaNs replaces exactly the NaN elements by zero, keeps every other element (infinities included) bit-for-bit, and its state reports per leaf whether that leaf contained a NaN in the latest update, starting false.',
 ['inputs', 'histories'], 'every element finite, NaN or infinite; non-negative parameters; float32 bit-exact',
 'small example arrays', ['constrain.py', 'update.py'], [('keep_params_nonnegative, zero_nans', 'constrain.py')]),
('C18', 'Differentially private aggregation clips per example before noise and mean',
 'Each example\'s gradient is scaled, jointly over all leaves, to L2 norm at most the clip (unchanged if already within), the clipped gradients are summed over the batch, Gaussian noise of standard deviation clip * noise multiplier is added independently to every element, and the total is divided by the batch size. '
 'Noise keys are fresh for each leaf and each update, the first key comes from the seed, and one example changes the noiseless sum by at most the clip. '
 'Gradients without a common leading batch axis are refused.',
 ['inputs', 'histories', 'configurations'], 'all per-example gradients, clips and noise multipliers, any key and seed, up to 3 updates',
 'statistical tests at fixed settings', ['privacy.py', 'linear_algebra.py'], [('aggregation', 'privacy.py: differentially_private_aggregate')]),
('C19', 'add_noise adds annealed Gaussian noise with fresh keys',
 'The t-th update (1-based) adds to every element an independent standard Gaussian draw times sqrt(eta / t^gamma), so its variance is eta/(1+count)^gamma with count starting at zero. '
 'Each leaf and each update uses a key different from all earlier ones, the first derives from the seed, and the count advances by one and saturates.',
 ['inputs', 'histories', 'configurations'], 'every gradient, eta, gamma, count, key and seed; 2-3 updates',
 'one statistical check', ['transform.py'], [('noise', 'transform.py: add_noise')]),
('C20', 'Scale, weight decay, trust ratio and centralisation formulas',
 'Scaling multiplies every element by the step size; weight decay adds weight_decay * p to each update (wrapped in masked, to the selected leaves only); trust ratio multiplies each leaf by max(|p|, min_norm)/max(|u|, min_norm), or by 1 when either norm is zero (min_norm 0). '
 'Centralisation subtracts from each leaf of rank above one its mean over all axes but the first and leaves other leaves unchanged. '
 'All are stateless and structure preserving, and weight decay and trust ratio refuse missing parameters.',
 ['inputs', 'configurations'], 'every update, parameter, scale, decay, min_norm within the shape bounds, zeros included',
 'one numeric example each', ['transform.py', 'numerics.py'], [('transforms', 'transform.py: scale, add_decayed_weights, scale_by_trust_ratio, centralize')]),
('C21', 'apply_updates, incremental_update and periodic_update',
 'Applying updates returns p + u per leaf in p\'s dtype and shape; incremental update returns step_size * new + (1 - step_size) * old per leaf; periodic update returns new when the step is a multiple of the period and old otherwise. '
 'Structure is preserved and empty slots stay empty.',
 ['inputs', 'configurations'], 'every parameter/update (dtypes f32, f16, bf16), step size, step and period',
 'single numeric examples', ['update.py'], [('updates', 'update.py')]),
('C22', 'Constant, polynomial and linear schedules follow their formula at every step',
 'A polynomial schedule equals (init - end) * (1 - f)^power + end with f = clip(count - begin, 0, steps)/steps: init up to and including begin, end from begin + steps on; linear is power one and constant never changes. '
 'A non-positive number of steps gives the constant init, and a negative begin counts as zero.',
 ['inputs', 'configurations'], 'every 32-bit count, positive step number, begin, init, end, power',
 'a short range of counts for a few settings', ['schedule.py'], [('schedules', 'schedule.py: polynomial_schedule, linear_schedule, constant_schedule')]),
('C23', 'Piecewise and one-cycle schedules change exactly at their boundaries',
 'Piecewise-constant schedules return init times the product of the scales whose boundary is at most the count, in any key order; interpolated ones pass through the cumulative product at each boundary, interpolate linearly or by cosine in between, and stay at the last value after the last boundary. '
 'One-cycle schedules start at peak/div, reach peak at int(pct_start*steps), and end at the documented final value at the last step and after (linear also returns to peak/div at int(pct_final*steps)). '
 'Negative scales, unknown interpolation kinds and non-positive one-cycle lengths are refused.',
 ['inputs', 'configurations'], 'every count, init, scale; boundary sets up to size 3',
 'a few counts at fixed boundaries', ['schedule.py'], [('schedules', 'schedule.py: piecewise_constant_schedule, piecewise_interpolate_schedule, *_onecycle_schedule')]),
('C24', 'Exponential, cosine, warm-up, joined and restarted schedules',
 'Exponential decay is init up to begin and then init * rate^((count-begin)/steps) (floored exponent if staircase), bounded below (rate < 1) or above (otherwise) by end_value; cosine decay is init * ((1-alpha)*(1+cos(pi*min(count,N)/N))/2 + alpha). '
 'Joined schedules use schedule i on [boundary i-1, boundary i) with the count restarted at the boundary; warm-up schedules rise linearly from init to peak and then follow the cosine (to end_value at decay_steps) or exponential decay, and restarts chain such cycles end to end. '
 'Degenerate settings (non-positive steps, zero rate, negative begin) fall back or are refused as documented.',
 ['inputs', 'configurations'], 'every 32-bit count and symbolic settings; 1-4 joined schedules',
 'short count ranges at fixed settings', ['schedule.py'], [('schedules', 'schedule.py: exponential_decay, cosine_decay_schedule, join_schedules, warmup_*, sgdr_schedule')]),
('C25', 'inject_hyperparams feeds scheduled and overridden hyperparameters each step',
 'On every update the wrapped factory is rebuilt with each scheduled hyperparameter evaluated at the step count and every other numeric hyperparameter taken from the state, so overwriting a value in the state takes effect at the next update and persists; updates and inner state equal those of the plain factory called with these values. '
 'The state reports exactly the values used, non-numeric, boolean and static arguments are passed through untouched, defaults are honoured, and the count advances by one and saturates.',
 ['inputs', 'schedules', 'histories', 'programs'], 'any factory and schedules (uninterpreted), any overriding values and count, 3-step histories',
 'fixed schedules on one optimiser', ['schedule.py'], [('injection', 'schedule.py: inject_hyperparams')]),
('C26', 'l2, Huber and cosine losses compute their formulas for all inputs',
 'The l2 loss is (prediction - target)^2 / 2 (targets default to zero); the Huber loss is quadratic within delta, delta * (|e| - delta/2) beyond, continuous with slope between -delta and delta; cosine similarity is the dot product over the product of norms clamped below by epsilon, hence within [-1, 1], and the distance is 1 minus it. '
 'All are elementwise (cosine: over the last axis), finite including their gradients, and refuse incompatible shapes.',
 ['inputs', 'configurations'], 'every finite prediction and target within the shape bounds, every delta and epsilon',
 'a few reference values', ['loss.py', 'numerics.py'], [('losses', 'loss.py')]),
('C27', 'Cross-entropy losses and label smoothing: formulas and numeric stability',
 'Sigmoid cross entropy is -y log sigma(x) - (1-y) log sigma(-x) elementwise and softmax cross entropy is -sum_j y_j log softmax(x)_j over the last axis, for any logits and labels. '
 'Neither overflows nor turns NaN for logits of large magnitude, and adding a constant to all logits does not change the softmax loss. '
 'Label smoothing returns (1 - alpha) * labels + alpha / classes, keeping the sum of labels.',
 ['inputs', 'configurations'], 'all real logits and labels, 2-4 classes; stability for logits up to 1e30 in the float32 exponential range',
 'a few reference values', ['loss.py'], [('losses', 'loss.py: sigmoid_binary_cross_entropy, softmax_cross_entropy, smooth_labels')]),
('C28', 'safe_norm and its gradient, global_norm, saturating increment',
 'The safe norm equals max(|x|, min_norm) and its gradient is x/|x| above the threshold and zero at or below it, finite everywhere including at zero; the global norm is the square root of the sum of squares over all leaves. '
 'The safe increment adds one to any 32-bit count below the maximum and otherwise returns the maximum.',
 ['inputs'], 'every finite vector incl. zero, every min_norm, every 32-bit count', 'single values', ['numerics.py', 'linear_algebra.py'],
 [('numerics', 'numerics.py: safe_norm, safe_int32_increment'), ('global_norm', 'linear_algebra.py')]),
('C29', 'Second-order utilities return exact Hessian products and diagonals',
 'The Hessian-vector product equals the Hessian of the loss in the raveled parameters times the vector, the Hessian diagonal equals its diagonal, and the Fisher diagonal equals the squared gradient of the loss, elementwise in ravel order, for the given inputs and targets. '
 'Each result is a vector with one entry per parameter.',
 ['inputs', 'programs'], 'all polynomial losses of degree <= 4 in 3 parameters and small softmax/sigmoid/exp models', 'a fixed network with random data', ['second_order.py'],
 [('second order', 'second_order.py')]),
('C30', 'Monte-Carlo gradient estimators average the right per-sample jacobians',
 'Per sample and distribution parameter, the score-function estimator returns f(x) times the gradient of log p(x) with samples held fixed, the pathwise estimator the gradient of f along the reparameterised sample, and the measure-valued estimator the weighted difference of f at the positive and negative perturbed samples with the documented constants for mean and log-scale. '
 'Outputs have one row per sample and one column per parameter, coupling reuses the same draw for both terms, each dimension is perturbed alone, and the parameters and rng are used as given.',
 ['inputs', 'programs', 'configurations'], 'any parameters and draws, 1-3 samples, dimension 1-2, arbitrary or polynomial test functions',
 'statistical convergence at fixed settings', ['stochastic_gradient_estimators.py', 'utils.py'], [('estimators', 'stochastic_gradient_estimators.py'), ('distribution and helpers', 'utils.py')]),
('C31', 'Control variates keep gradient estimates unbiased and follow their formulas',
 'The delta-method variate is the second-order Taylor expansion of the function at the mean and its closed-form expectation adds half the sum of variance times second derivative; the moving-average baseline returns its state as value and expectation and moves it towards the mean of f over the samples with weight (1-d)/(1-d^(i+1)) if debiased (1-d otherwise, d the decay or min(decay, (1+i)/(10+i)) early on), so a constant stays constant, counting iterations by one. '
 'Per sample and parameter the corrected jacobian is the estimate for f minus c times (the estimate for the variate on the same samples plus the mean parameter gradient of the variate) plus c times the gradient of the variate\'s expectation, with c = 1 or the estimated coefficient, and the variate state is updated exactly once with those samples. '
 'Each estimated coefficient is the summed covariance over the summed variance plus eps of the two jacobians, on fresh samples.',
 ['inputs', 'programs', 'histories', 'configurations'], 'any parameters, draws, polynomial or uninterpreted functions, estimators and variates, 1-3 samples, 4-update histories',
 'statistical agreement at fixed settings', ['control_variates.py'], [('control variates', 'control_variates.py')]),
('C32', 'Power iteration and inverse p-th root compute what they report',
 'From any starting vector power iteration returns a unit vector in the direction of the repeatedly multiplied start and the Rayleigh quotient of its last step, stops as soon as the quotient moves by no more than the tolerance (or at the iteration limit), and keeps an eigenvector with its eigenvalue. '
 'The inverse p-th root, for every positive integer p, is that of the matrix plus ridge * max(largest eigenvalue, 1e-16) times the identity: exact for 1x1 matrices, and otherwise the coupled Newton iterate whose reported error equals the largest entry of |root^p * damped matrix - identity| unless the last step was rejected for growing the error by a factor of 1.2 or more. '
 'Iteration stops within the tolerance, and a rejected step returns the previous iterate.',
 ['inputs', 'configurations'], 'all symmetric matrices of size 1-2, starting vectors, tolerances, up to 2 steps, several p',
 'one family of matrices with p = 4', ['linear_algebra.py'], [('iterations', 'linear_algebra.py: power_iteration, matrix_inverse_pth_root')]),
('C33', 'Transformations are pure, traceable, and keep structure, shapes and dtypes',
 'For every transformation, wrapper and ready-made optimiser, updates have the tree structure, shapes and float dtype (32-bit, 16-bit, bfloat16) of the gradients, and the state keeps its structure, shapes and dtypes from initialisation on. '
 'Initialisation and update are pure functions: calling again, from a fresh instance, under jit, inside a scan over steps, or vmapped over a batch gives the same results as plain calls.',
 ['inputs', 'histories', 'configurations', 'programs'], 'about 45 transformation configurations, three dtypes, any gradients and parameters, two consecutive updates, batches of two',
 'jitted single calls in float32', ['transform.py', 'wrappers.py', 'alias.py', 'clipping.py', 'constrain.py', 'schedule.py'],
 [('all transformations', 'transform.py'), ('wrappers', 'wrappers.py')]),
('C34', 'Numeric hyperparameters may be traced arrays',
 'Every ready-made optimiser and parametrised transformation accepts its numeric hyperparameters as traced scalars (as under jit, vmap over hyperparameters or inject_hyperparams): building it, initialising and updating never branches in Python on a hyperparameter value, '
 'and inject_hyperparams around the factory emits exactly the updates of the factory called with the same values. '
 'Only choices documented as static (flags, dtypes, masks, None options, b2 of sm3 scaling) may be made while building.',
 ['inputs', 'configurations', 'programs'], '30 factories, all numeric hyperparameters (seeds included) symbolic at once, any gradients and parameters, two updates',
 'a few factories with Python floats', ['alias.py', 'transform.py', 'clipping.py', 'schedule.py'],
 [('factories', 'alias.py'), ('injection', 'schedule.py: inject_hyperparams')]),
('C35', 'Optimiser steps can be differentiated (meta-gradients)',
 'Unrolled updates are differentiable functions: the derivative of any weighted sum of the emitted updates (or of the parameters followed through apply_updates) with respect to the incoming gradients, the parameters and the numeric hyperparameters '
 'is the derivative of the documented formula, through state carried from step to step and through the wrappers (chain, masked, flatten, MultiSteps, apply_if_finite, maybe_update, lookahead, apply_every, inject_hyperparams): nothing on the way is detached. '
 'It is finite for all finite inputs away from the kinks of clipping and norms, including zero gradients and zero parameters where the documentation promises it (Adam with eps_root > 0, safe norms, root-sum-of-squares and RMS scaling with eps > 0). '
 'Schedules are linear in, and differentiable by, their initial and final values at every step.',
 ['inputs', 'configurations', 'histories'], 'every gradient, parameter, cotangent and hyperparameter in its range; two updates from init',
 'two tests of one transformation each; never the derivative of an update', ['transform.py', 'clipping.py', 'wrappers.py', 'lookahead.py', 'schedule.py', 'update.py', 'alias.py', 'numerics.py'],
 [('scalings', 'transform.py'), ('clipping', 'clipping.py'), ('wrappers', 'wrappers.py, lookahead.py'), ('hyperparameters', 'schedule.py: inject_hyperparams'), ('parameters', 'update.py: apply_updates')]),
('C36', 'Wrappers nest in any order and neutral settings change nothing',
 'Wrappers may be nested in one another, in chains and in lookahead in any order, each keeping its documented meaning with the wrapped one as its inner transformation: MultiSteps, masked, apply_if_finite, maybe_update, flatten, inject_hyperparams and windows of apply_every in a chain '
 'keep their counters, accumulators and inner states apart from those of the others, also when an outer wrapper skips a step. '
 'Neutral settings emit exactly what the inner transformation emits: one mini-step, apply_every(1), a mask selecting everything, maybe_update always, apply_if_finite on finite gradients, injected constants, chain of one, identity, scale by 1, zero decay of trace, ema or weight decay, a constant schedule of 1, noise of variance zero. '
 'Complementary masks around the same elementwise transformation act as that transformation on the whole tree.',
 ['histories', 'inputs', 'configurations'], 'any inner transformation, every nesting, finite or NaN/Inf gradients, several updates',
 'each wrapper around one concrete optimiser; almost no nesting', ['wrappers.py', 'combine.py', 'schedule.py', 'transform.py', 'lookahead.py'],
 [('wrappers', 'wrappers.py'), ('chain', 'combine.py'), ('injection', 'schedule.py: inject_hyperparams'), ('lookahead', 'lookahead.py')]),
('C37', 'Transformations have their symmetries: odd, linear, local, scale invariant',
 'Negating all gradients and parameters negates every update (yogi, noise and constraints aside); zero gradients from a fresh state give zero updates (weight decay aside). '
 'Trace, ema, scale, schedules, weight decay, centralisation, windows, MultiSteps and plain SGD are linear in gradients and parameters; Adam, belief, RSS, RMS and standard-deviation scaling with eps = 0 do not change when all gradients are multiplied by one positive factor. '
 'Elementwise transformations treat every element by itself, layer-wise ones (SM3, trust ratio, adaptive clipping, centralisation, LAMB, Fromage) every leaf by itself, '
 'and neither the order of elements nor of leaves matters to elementwise and norm-based ones.',
 ['inputs', 'histories'], 'every gradient, parameter and factor; two related runs of two updates', 'no test relates two runs', ['transform.py', 'alias.py', 'wrappers.py', 'clipping.py'],
 [('scalings', 'transform.py'), ('optimisers', 'alias.py'), ('clipping', 'clipping.py')]),
('C38', 'Steps stay bounded and schedules move monotonically within range',
 'Whatever the gradients so far: RSS, Adagrad (times the learning rate) and SM3 without momentum emit elements of magnitude at most 1, RMS at most 1/sqrt(1-decay), Adam its Cauchy-Schwarz bound (1 at the first step) times the learning rate; momentum of gradients bounded by G stays within G/(1-decay), averages within the range of the gradients. '
 'LAMB moves no leaf by more than lr times its norm, AdamW without gradients shrinks parameters, SGD with lr * curvature at most 2 never moves away from the minimum of a quadratic, interpolating updates stay between their ends. '
 'Polynomial, linear, exponential and cosine decays stay between their ends and never turn back; warm-up and one-cycle schedules rise to the peak, never exceed it, then fall; restarts never exceed the largest peak.',
 ['inputs', 'histories'], 'every gradient and state in range; every pair of counts and every schedule parameter', 'values at sampled counts and gradients', ['transform.py', 'alias.py', 'schedule.py', 'update.py', 'lookahead.py', 'wrappers.py'],
 [('scalings', 'transform.py'), ('optimisers', 'alias.py'), ('schedules', 'schedule.py')]),
('C39', 'multi_normal is the diagonal Gaussian of its parameters',
 'For any mean and log-scale, log_prob(x) = sum_j (-((x_j - mean_j)/exp(log_scale_j))^2/2 - log_scale_j - log(2 pi)/2), one number per row of x, largest at the mean, and its derivatives are the scores; '
 'sample(shape, key) has that shape followed by the parameter shape and equals mean + exp(log_scale) times independent standard draws of the key, the same for equal keys; params returns mean and log-scale. '
 'The batched-diagonal helper replaces exactly the diagonals, and tiling repeats each element along a new second-to-last axis.',
 ['inputs'], 'every mean, log-scale, point and draw', 'never tested by itself', ['utils.py'],
 [('distribution', 'utils.py: MultiNormalDiagFromLogScale'), ('helpers', 'utils.py: set_diags, tile_second_to_last_dim')]),
('C40', 'Only the elements count: leaf shapes, leaf numbers and containers do not matter',
 'Every elementwise transformation, ready-made elementwise optimiser and wrapper around one emits for each element what it emits for that element in a plain vector, whatever the rank and size of the leaf '
 '(scalars, size-one axes, empty and large leaves included), the number of leaves and the nesting of dicts, lists, tuples, named tuples and empty slots. Layer-wise transformations treat each leaf as if it were alone; '
 'global norms and their clipping are those of the vector of all elements; applying, averaging and periodically copying parameters, and lookahead, act per element. '
 'Losses depend on batch axes only element by element or row by row.',
 ['inputs'], 'every value of the elements, on trees and shapes far from those of the tests', 'two-leaf trees of vectors', ['transform.py', 'alias.py', 'wrappers.py', 'clipping.py', 'constrain.py', 'update.py', 'loss.py', 'linear_algebra.py', 'lookahead.py'],
 [('transformations', 'transform.py'), ('optimisers', 'alias.py'), ('wrappers', 'wrappers.py'), ('losses', 'loss.py')]),
]
TECH = 'symbolic execution of the traced jaxpr of the real functions into real/NaN-flag terms; z3 and cvc5 decide the negated assertion'
NA = []


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for (i, title, st, over, q, tests, files, mech) in T:
      assert len(title) <= 80, i
      f.write(json.dumps({
          'id': i, 'title': title, 'statement': st,
          'quantifier': {'over': over, 'text': q},
          'why_tests_cant': 'The property is universal over ' + q + '; the tests reach ' + tests + '.',
          'anchors': {'files': [S + x for x in files], 'mechanism': [{'name': a, 'where': S + b} for a, b in mech]},
      }) + '\n')
  checks = []
  for row in T:
    i = row[0]
    if any(n['property'] == i for n in NA):
      continue
    mod = ast.parse(open(os.path.join(HERE, 'props', i + '.py')).read())
    b = next(ast.literal_eval(n.value) for n in mod.body if isinstance(n, ast.Assign) and n.targets[0].id == 'BOUNDS')
    checks.append({
        'property': i, 'quick_cmd': './run.py %s --tier quick' % i, 'thorough_cmd': './run.py %s --tier thorough' % i,
        'technique': TECH, 'level': 'other',
        'level_note': 'Solver-decided for all values within bounds: ' + b + '.'})
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './run.py --setup', 'checks': checks, 'not_applicable': NA,
               'notes': 'All checks run offline against /repo\'s working tree; nothing is built or cached. See DESIGN.md.'}, f, indent=1)
    f.write('\n')


main()
