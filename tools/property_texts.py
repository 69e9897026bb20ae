RM = 'runtime monitoring: '

prop('C01', 'n-step reward tracing emits exactly the n-step transitions of each episode',
     'For every sequence of steps fed to an n-step tracer, each step of each episode is emitted exactly once and in '
     'order, with its own state, action, propensity and weight, the discounted sum of the next n rewards truncated at '
     'the end of the episode, a bootstrap factor of gamma^n (zero when the episode ended inside the window) and the '
     'next state/action lying n steps ahead. A transition is available only when its window is complete or the '
     'episode is over, popping too early or adding past the end is refused without effect, and the optional extra '
     'information replays the window itself.',
     ['inputs', 'histories'],
     'all n, gamma, record-extra-info settings, observation/action/reward structures, episode lengths and all '
     'interleavings of add, pop, flush and reset',
     'Tests replay one hand-written episode for a few n; interleavings, episodes shorter than n, resets between '
     'episodes and nested observations are not sampled.',
     ['coax/reward_tracing/_nstep.py', 'coax/reward_tracing/_transition.py', 'coax/reward_tracing/_base.py'],
     ['two deques of pending steps and rewards @ coax/reward_tracing/_nstep.py NStep.add/pop',
      'bootstrap factor cut at done @ coax/reward_tracing/_nstep.py NStep.pop'],
     'one case = one generated multi-episode history of add/pop/flush/reset; distinct by (n, structure, episode '
     'length, pop schedule)',
     RM + 'online reference-model monitor over tagged add/pop histories',
     'Held on the generated histories; oracle recomputes every return from whole remembered episodes.',
     observe=['return values of NStep.pop/flush, len, truth value'])

prop('C02', 'Monte-Carlo tracing emits the full discounted return of every step once',
     'For every episode fed to a Monte-Carlo tracer, after the episode ends each of its steps is emitted exactly once '
     'with its own state, action, propensity and weight and the full discounted return from that step, and never '
     'bootstraps. Nothing is emitted before the episode is over, nothing may be added until it is drained, and no '
     'reward leaks from one episode into another.',
     ['inputs', 'histories'],
     'all gamma, structures, episode lengths and interleavings of add, pop, flush and reset',
     'Tests check one short episode; partial drains, resets and several episodes through one tracer are not covered.',
     ['coax/reward_tracing/_montecarlo.py', 'coax/reward_tracing/_transition.py'],
     ['backward accumulation of the return @ coax/reward_tracing/_montecarlo.py MonteCarlo.pop'],
     'one case = one multi-episode history; distinct by (structure, episode length, drain schedule)',
     RM + 'online reference-model monitor over tagged add/pop histories',
     'Held on the generated histories; returns recomputed from the definition in float64.')

prop('C03', 'Transition batches preserve every field of every transition',
     'Building a batch from single transitions, splitting it back into singles or into power-of-two chunks, copying '
     'it and mapping over it conserve every field of every transition in order, with no transition lost, duplicated '
     'or mixed with another. Deep copies share nothing with their original, assigning to a field of a copy or of a '
     'single never changes the batch it came from, and values outside the domain (positive log-propensity, gamma '
     'outside [0,1], non-positive weight) are refused.',
     ['inputs'],
     'all batch sizes, nested observation and action structures, vector rewards, optional next actions and extra '
     'information',
     'Tests build a handful of flat batches; aliasing, batch size one, nested structures and chunking of all sizes '
     'are not sampled.',
     ['coax/reward_tracing/_transition.py', 'coax/utils/_misc.py'],
     ['field-wise slicing @ coax/reward_tracing/_transition.py TransitionBatch.to_singles',
      'power-of-two chunking @ coax/utils/_misc.py chunks_pow2'],
     'one case = one generated batch taken through all conversions; distinct by structure and size',
     RM + 'conservation monitor over uniquely tagged transitions',
     'Held on the generated batches.')

prop('C04', 'The uniform replay buffer holds exactly the most recent transitions',
     'After any history of adds and clears the buffer holds exactly the most recent capacity-many transitions, '
     'unchanged, each under its own unique identifier; a sample contains only stored transitions, without '
     'repetition, each equally likely. Equal seeds and histories give equal samples, whatever else draws random '
     'numbers in the process.',
     ['histories', 'inputs'],
     'all capacities, all interleavings of single and multi-transition adds, samples and clears, all nested '
     'observation structures',
     'Tests add a few hundred transitions once; wrap-around with mixed batch sizes, clears, re-adding the same '
     'object and the sampling distribution are not covered.',
     ['coax/experience_replay/_simple.py', 'coax/reward_tracing/_transition.py'],
     ['bounded deque plus running identifier @ coax/experience_replay/_simple.py SimpleReplayBuffer.add',
      'seeded private generator @ coax/experience_replay/_simple.py SimpleReplayBuffer.sample'],
     'one case = one generated add/sample/clear history compared against a list model after every operation',
     RM + 'reference-model monitor plus frequency monitor (z-bound 6.5)',
     'Held on the generated histories; sampling fairness is statistical with a false-alarm probability below 1e-8.')

prop('C05', 'Prioritized replay samples live transitions in proportion to their priority',
     'After any history of adds, priority updates and hyperparameter changes the buffer holds exactly the most recent '
     'capacity-many transitions; sampling probabilities are proportional to (|advantage| + epsilon)^alpha and '
     'samples carry weights proportional to (N p)^-beta normalised by the largest one in the sample. Priority updates '
     'take effect on exactly the named live transitions, and updates addressed to transitions that were overwritten '
     'have no effect on anything.',
     ['histories', 'inputs'],
     'all capacities, alpha/beta/epsilon values and changes, all interleavings of add, sample, update (with live, '
     'stale, repeated identifiers) and clear',
     'Tests check one fill level and one update; stale identifiers, wrap-around, duplicates and hyperparameter '
     'changes after data is stored are not sampled.',
     ['coax/experience_replay/_prioritized.py', 'coax/utils/_segment_tree.py'],
     ['identifier-to-slot validation @ coax/experience_replay/_prioritized.py PrioritizedReplayBuffer.update',
      'sum-tree sampling and min-tree normaliser @ coax/experience_replay/_prioritized.py PrioritizedReplayBuffer.sample'],
     'one case = one generated history compared against a dictionary model after every operation',
     RM + 'reference-model monitor plus frequency monitor (z-bound 6.5)',
     'Held on the generated histories; the alpha setter ignores changes within 1% by design and is given that slack.')

prop('C06', 'Segment trees agree with a flat array under every history of writes',
     'After any history of scalar and batched writes, a sum/min/max tree reports exactly the array that was written, '
     'and the reduction over the whole tree and over every non-empty index range equals the reduction of that array. '
     'Weighted lookup maps every number in [0,1] to an in-range index of positive weight whose slice of the '
     'cumulative distribution contains it, and out-of-range input is refused without effect.',
     ['histories', 'inputs'],
     'all capacities including non powers of two, duplicate and negative indices, zero-weight leaves, all ranges in '
     'scalar and vectorised form',
     'Tests use a few fixed capacities and ranges; zero leaves, u=0/1, ranges starting at the last leaf and batched '
     'mixtures are not sampled.',
     ['coax/utils/_segment_tree.py'],
     ['bottom-up recomputation of ancestors @ coax/utils/_segment_tree.py SegmentTree.set_values',
      'tree descent @ coax/utils/_segment_tree.py SumTree.inverse_cdf'],
     'one case = one write history with all range queries compared against numpy',
     RM + 'reference-model monitor against a flat numpy array',
     'Held on the generated histories, float64 tolerance.')


prop('C07', 'Every TD algorithm regresses towards its documented target',
     'For every batch and every current setting of the parameters, the temporal-difference error reported by each '
     'value updater is the target function value minus the prediction, where the target is the (transformed) n-step '
     'reward plus bootstrap factor times the un-transformed next value prescribed by the algorithm (simple TD, Sarsa, '
     'expected Sarsa, Q-learning, double, clipped double, soft, soft clipped double), plus the regularizer bonus if '
     'there is one. Terminal transitions never bootstrap, target networks are read when given, and the reported loss '
     'is the importance-weighted loss of those two quantities.',
     ['inputs', 'histories'],
     'all batches, parameter and state values (including after they were changed), both Q model types, discrete and '
     'continuous actions, value transforms, regularizers, loss functions and target-network combinations',
     'Tests run one update per algorithm and check that parameters moved; no test looks at the value of a target.',
     ['coax/td_learning/_base.py', 'coax/td_learning/_simple_td.py', 'coax/td_learning/_sarsa.py',
      'coax/td_learning/_expectedsarsa.py', 'coax/td_learning/_qlearning.py', 'coax/td_learning/_doubleqlearning.py',
      'coax/td_learning/_clippeddoubleqlearning.py', 'coax/td_learning/_softqlearning.py',
      'coax/td_learning/_softclippeddoubleqlearning.py'],
     ['target_func of each updater @ coax/td_learning/_*.py target_func',
      'loss and metrics @ coax/td_learning/_base.py BaseTDLearning.__init__'],
     'one case = one updater configuration with four parameter settings and batches; distinct by configuration',
     RM + 'differential monitor: float64 numpy twin of every network, observed through td_error and metrics',
     'Held on the generated configurations; rows where the greedy action is decided by less than 1e-3 are skipped.',
     ['SoftClippedDoubleQLearning samples its continuous actions: monitored with a policy of vanishing variance'])

prop('C08', 'Distributional TD learning projects and weights the target distribution',
     'For every batch, the distributional updaters compare the prediction with the distribution of the n-step reward '
     'plus discounted next return prescribed by the algorithm: for categorical functions the target atoms are '
     'projected onto the support with total mass one, for quantile functions every target quantile is compared with '
     'every predicted quantile under the quantile Huber loss. Terminal transitions have the reward alone as target, '
     'importance weights scale the loss of every transition, and the reported error is the difference of means.',
     ['inputs'],
     'all batches, parameter settings, supports, numbers of bins, quantile fractions, both model types, value '
     'transforms, regularizers and target-network combinations',
     'Tests only check that distributional updates move the parameters; projection at and beyond the support ends, '
     'weights and terminal rows are not sampled.',
     ['coax/td_learning/_base.py', 'coax/proba_dists/_discretized_interval.py', 'coax/utils/_quantile_funcs.py',
      'coax/value_losses/_losses.py', 'coax/_core/stochastic_q.py', 'coax/_core/stochastic_v.py'],
     ['projection of shifted atoms @ coax/proba_dists/_discretized_interval.py affine_transform',
      'quantile loss @ coax/value_losses/_losses.py quantile_huber'],
     'one case = one distributional updater configuration with several parameter settings; distinct by configuration',
     RM + 'differential monitor: independent float64 projection and quantile loss',
     'Held on the generated configurations; greedy ties below 1e-3 are skipped.')

prop('C09', 'An update is one semi-gradient step and touches nothing else',
     'Every update moves the parameters of the function being learned by exactly one step of the given optimizer '
     'along the gradient of the reported loss with the target held constant, advances its state once, and changes '
     'neither the target networks, the policies, the regularizers nor the batch. Computing gradients has no effect, '
     'splitting an update into computing and applying gradients is the same as doing it at once, and gradients that '
     'contain NaN are refused with every parameter and optimizer state left as it was. A compatible optimizer can '
     'take over from the current optimizer state; an incompatible one is refused.',
     ['inputs', 'histories', 'fault_sequences'],
     'all updaters, optimizers, batches (also poisoned ones), parameter settings and sequences of updates and setter '
     'calls',
     'Tests compare parameters before and after a single update; leaking gradients through the target, aliasing of '
     'target networks and refused updates are not observed.',
     ['coax/td_learning/_base.py', 'coax/utils/_jit.py', 'coax/_core/base_func.py'],
     ['stop_gradient on the target, NaN gate @ coax/td_learning/_base.py update/apply_grads/grads_and_metrics'],
     'one case = one updater + optimizer driven through several updates; distinct by configuration, optimizer, step',
     RM + 'finite-difference gradient monitor and bitwise state-isolation monitor',
     'Held on the generated histories; gradients compared by random directional derivatives in float64.')


prop('C10', 'Copies are independent; soft updates are exact exponential smoothing',
     'A copy of any function approximator computes the same outputs as its original and from then on shares nothing '
     'with it: changing the parameters or state of one never changes the other, unless weights are explicitly shared. '
     'A soft update moves every parameter and state leaf of the target to (1-tau) times its old value plus tau times '
     'the source, leaves the source untouched, and every later output is computed from the current parameters; '
     'assigning parameters of a different structure is refused without effect.',
     ['histories', 'inputs'],
     'all function approximators, all tau in [0,1], all interleavings of copy, parameter/state assignment, soft update '
     'and evaluation',
     'Tests call soft_update once; stale jit caches, aliasing between copies and long interleavings are not sampled.',
     ['coax/_core/base_func.py', 'coax/_base/mixins/_copy.py', 'coax/utils/_misc.py'],
     ['soft_update and property setters @ coax/_core/base_func.py BaseFunc',
      'copy @ coax/_base/mixins/_copy.py CopyMixin'],
     'one case = one history of copies, assignments, soft updates and evaluations; distinct by function type and '
     'operation sequence',
     RM + 'reference-model monitor of all parameter sets plus float64 twin of every output',
     'Held on the generated histories.')

prop('C11', 'A function means the same however it is modelled and queried',
     'For every state and action, evaluating a Q-function, transition model, reward function or successor-state Q '
     'function gives the same value whether it was modelled as type 1 or type 2, queried for one action or for all, '
     'singly or in a batch, and row i of a batch depends on row i of the input only. Training mode advances the '
     'function state exactly once and evaluation never does, and calling, sampling, mean and mode return values in '
     'the original space with the value transform undone.',
     ['inputs', 'configurations'],
     'all observation and action spaces, parameter values, model types, batch sizes, value transforms and training '
     'flags',
     'Tests check output shapes and types; the values produced by the type-1/type-2 bridges are never compared.',
     ['coax/_core/q.py', 'coax/_core/stochastic_q.py', 'coax/_core/stochastic_v.py', 'coax/_core/transition_model.py',
      'coax/_core/stochastic_transition_model.py', 'coax/_core/reward_function.py',
      'coax/_core/stochastic_reward_function.py', 'coax/_core/successor_state_q.py',
      'coax/_core/base_stochastic_func_type1.py'],
     ['type-1 to type-2 replication @ coax/_core/q.py Q.function_type1/function_type2',
      'model bridge @ coax/_core/base_stochastic_func_type1.py function_type1/function_type2',
      'one-step lookahead @ coax/_core/successor_state_q.py SuccessorStateQ'],
     'one case = one function with several states, actions and parameter settings; distinct by class, model type, '
     'spaces',
     RM + 'differential monitor: float64 numpy twin of every network and metamorphic batch/single comparison',
     'Held on the generated configurations; sampled outputs are compared statistically (z-bound 6.5).')

prop('C12', 'Distributions satisfy the identities that define them',
     'For every parameter setting and variate, log-probability, entropy, cross-entropy and KL-divergence of the '
     'categorical, normal, squashed normal and composite distributions equal their mathematical definitions (KL = '
     'cross-entropy minus entropy, composites add up their components), and mean, mode and default parameters match. '
     'Samples follow the distribution whose log-probability is reported, and an affine transformation yields the '
     'distribution of the transformed variate.',
     ['inputs'],
     'all distribution types, space shapes, nestings, logits/means/variances over several orders of magnitude and '
     'random keys',
     'Tests compare a few methods with each other on one random draw; nothing is compared with the definition, and '
     'sampling is never checked against the reported density.',
     ['coax/proba_dists/_normal.py', 'coax/proba_dists/_categorical.py', 'coax/proba_dists/_squashed_normal.py',
      'coax/proba_dists/_composite.py', 'coax/proba_dists/_discretized_interval.py',
      'coax/proba_dists/_empirical_quantile.py', 'coax/proba_dists/_base.py'],
     ['closed forms @ coax/proba_dists/_normal.py NormalDist', 'Gumbel trick @ coax/proba_dists/_categorical.py',
      'aggregation over sub-distributions @ coax/proba_dists/_composite.py ProbaDist'],
     'one case = one distribution with several parameter rows; distinct by type, shape and nesting',
     RM + 'differential monitor against float64 definitions plus moment/frequency monitor on samples (z-bound 6.5)',
     'Held on the generated parameters.',
     ['Normal entropy-like quantities of the squashed normal are not claimed (no closed form is implemented)'])

prop('C13', 'A policy reports the true propensity of every action it takes',
     'For every state, the action a parametrised policy returns is an element of the action space, the log-propensity '
     'it returns is the log-probability of exactly that action under the distribution parameters it reports for that '
     'state, and the mode and the mean are those of that distribution. Repeated calls draw independent samples from '
     'that distribution with the current parameters, and asking for the propensity does not change the draw.',
     ['inputs', 'histories'],
     'all observation and action spaces (discrete, box, nested), parameter values, parameter changes between calls and '
     'random keys',
     'Tests check membership of one action and the shape of its propensity; the value is never verified.',
     ['coax/_core/policy.py', 'coax/_core/base_stochastic_func_type2.py', 'coax/proba_dists/_composite.py',
      'coax/proba_dists/_categorical.py'],
     ['sample and log_proba of one draw @ coax/_core/base_stochastic_func_type2.py __call__'],
     'one case = one policy with several parameter settings and states; distinct by spaces',
     RM + 'differential monitor of each (action, logp) event plus frequency monitor (z-bound 6.5)',
     'Held on the generated policies.')

prop('C14', 'Value-based and random policies follow their documented distributions',
     'An epsilon-greedy policy picks each action with probability epsilon/n plus (1-epsilon) divided evenly among the '
     'maximisers of the current Q-function, a Boltzmann policy with probability softmax(q/temperature), and a random '
     'policy uniformly over the action space; the reported log-propensity is that of the action taken. Changing '
     'epsilon, the temperature or the parameters of the Q-function takes effect on the next call and on nothing else, '
     'and parameters written through the policy are the parameters of the Q-function.',
     ['inputs', 'histories'],
     'all Q-functions (both model types, stochastic ones, value transforms), epsilon in [0,1], temperatures, ties and '
     'parameter changes between calls',
     'Tests draw a single action; probabilities, ties and changes of hyperparameters after compilation are not '
     'observed.',
     ['coax/_core/value_based_policy.py', 'coax/_core/random_policy.py'],
     ['epsilon-greedy and Boltzmann logits @ coax/_core/value_based_policy.py EpsilonGreedy/BoltzmannPolicy',
      'uniform sampling @ coax/_core/random_policy.py RandomPolicy'],
     'one case = one policy with several parameter settings and states; distinct by configuration',
     RM + 'differential monitor of propensities plus frequency monitor (z-bound 6.5)',
     'Held on the generated policies.')

prop('C15', 'Pre- and post-processing preserve the elements of a space',
     'Preprocessing an element of a space and postprocessing the result gives the element back (exactly for discrete '
     'components, up to float precision for continuous ones), alone or in a batch, for every nesting of spaces, and '
     'whatever a distribution emits is postprocessed into an element of its space with the right type. The default '
     'observation preprocessor one-hot encodes discrete components, passes continuous ones through and never mixes up '
     'components or batch rows.',
     ['inputs'],
     'all Discrete, MultiDiscrete, MultiBinary, Box, Tuple and Dict spaces and nestings, all elements including those '
     'on the boundary, and all raw outputs over several orders of magnitude',
     'Tests preprocess a few samples of small spaces; boundaries, integer boxes, nestings and raw outputs far from '
     'zero are not sampled.',
     ['coax/proba_dists/_normal.py', 'coax/proba_dists/_composite.py', 'coax/proba_dists/_categorical.py',
      'coax/proba_dists/_discretized_interval.py', 'coax/utils/_misc.py'],
     ['clipped affine/logit maps @ coax/proba_dists/_normal.py NormalDist.preprocess_variate/postprocess_variate',
      'nested preprocessing @ coax/utils/_misc.py default_preprocessor'],
     'one case = one generated space with several elements and raw outputs; distinct by space structure',
     RM + 'round-trip and membership monitor over generated nested spaces',
     'Held on the generated spaces; unbounded box components are compared within the documented clipping range.',
     ['Discrete spaces with start=0 (gymnasium 0.26 start offsets are not supported by coax)'])

prop('C16', 'Value transforms are undone exactly where users see values',
     'A value transform and its inverse are mutually inverse on every value, and the log-transform equals its '
     'documented formula. Calling a (stochastic) state value function returns values in the original space: the '
     'inverse transform of the raw network output, or of samples, means and modes of the distribution over '
     'transformed values, with the current parameters and in evaluation mode.',
     ['inputs'],
     'all transforms, scales, values over many orders of magnitude, observation spaces and parameter settings',
     'Tests check the round trip on one small array; extreme values, custom pairs and the value functions using the '
     'transform are not sampled.',
     ['coax/value_transforms/_log_transform.py', 'coax/_core/v.py', 'coax/_core/stochastic_v.py'],
     ['log-transform pair @ coax/value_transforms/_log_transform.py LogTransform', 'inverse on call @ coax/_core/v.py V.__call__'],
     'one case = one transform or value function with several inputs; distinct by configuration',
     RM + 'round-trip monitor and differential monitor against a float64 twin',
     'Held on the generated inputs; sampled values are compared statistically (z-bound 6.5).')

prop('C17', 'A policy update is a gradient step on the stated objective',
     'For every batch, the loss of a policy objective is minus the mean over transitions of the clipped importance '
     'weight times the documented objective (REINFORCE, PPO-clip, deterministic or soft policy gradient) plus the '
     'weighted regularizer, its gradient is the gradient of that loss, and the reported metrics agree. An update '
     'applies exactly one optimizer step to the parameters and state of the policy and to nothing else; gradients '
     'containing nan are refused without effect.',
     ['inputs', 'histories'],
     'all objectives, policies (discrete and continuous), q-functions (deterministic and stochastic, with value '
     'transforms), regularizers, weights, optimizers, hyperparameter changes and batch sizes',
     'Tests check that parameters move after one update; neither the value of the loss, its gradient nor what else '
     'moves is compared with anything.',
     ['coax/policy_objectives/_base.py', 'coax/policy_objectives/_vanilla_pg.py', 'coax/policy_objectives/_ppo_clip.py',
      'coax/policy_objectives/_deterministic_pg.py', 'coax/policy_objectives/_soft_pg.py'],
     ['loss and gradient @ coax/policy_objectives/_base.py PolicyObjective.__init__',
      'clipped ratio @ coax/policy_objectives/_ppo_clip.py objective_func'],
     'one case = one objective with several parameter settings and batches; distinct by configuration and size',
     RM + 'differential monitor against a float64 oracle (loss, finite-difference gradients), isolation snapshots',
     'Held on the generated configurations; rows within 2e-3 of a kink of the objective are avoided.',
     ['q_targ is evaluated in training mode by the code; the oracle uses q-functions that do not depend on the mode'])

prop('C18', 'Regularizers charge the documented entropy and divergence terms',
     'For every batch, an entropy regularizer contributes minus beta times the entropy, and a KL regularizer beta times '
     'the divergence from the (default or given) priors, of the distribution that the regularized function predicts '
     'for each transition with the given parameters. The n-step entropy regularizer discounts and sums the entropies '
     'at exactly the selected steps that lie within the episode; coefficients and priors that are changed take '
     'effect at once.',
     ['inputs', 'histories'],
     'all stochastic functions (policies, value functions, transition models), parameter settings, coefficients, '
     'priors, selected steps, episode lengths and batch sizes',
     'Tests use regularizers in one policy update without observing the term.',
     ['coax/regularizers/_base.py', 'coax/regularizers/_entropy.py', 'coax/regularizers/_kl_div.py',
      'coax/regularizers/_nstep_entropy.py'],
     ['batch evaluation @ coax/regularizers/_base.py Regularizer.batch_eval',
      'validity mask @ coax/regularizers/_nstep_entropy.py valid_from_done'],
     'one case = one regularizer on one function with several batches; distinct by configuration, selection and size',
     RM + 'differential monitor against float64 definitions, fed by the real n-step tracer',
     'Held on the generated configurations.',
     ['n-step entropies are evaluated in training mode by the code; the oracle uses mode-independent policies'])

prop('C19', 'Loss functions equal their mathematical definitions everywhere',
     'For every prediction, target and weighting, the mean-squared, Huber, logistic and quantile-Huber losses equal '
     'their documented definitions, are finite for finite input, never negative, zero for perfect predictions, and '
     'average over the batch with the given weights. Generated quantile fractions are increasing within (0,1) and '
     'their embedding is the documented cosine basis.',
     ['inputs'],
     'all shapes, deltas, weights, values over many orders of magnitude, hard and soft labels, and random keys',
     'Tests compare a few losses with one another on one random array; extremes, weights and soft labels are not '
     'sampled.',
     ['coax/value_losses/_losses.py', 'coax/utils/_quantile_funcs.py'],
     ['closed forms @ coax/value_losses/_losses.py', 'quantile fractions @ coax/utils/_quantile_funcs.py'],
     'one case = one loss with several inputs; distinct by loss, shape and weighting',
     RM + 'differential monitor against float64 definitions',
     'Held on the generated inputs.')

prop('C20', 'The training monitor counts and records exactly what happened',
     'For every history of resets, steps, recorded metrics, counter snapshots and restores, the training monitor '
     'passes actions, keyword arguments, observations, rewards and flags through unchanged; its counters '
     '(total steps, episodes, steps and return in the episode, running average return) and metric averages equal '
     'those of the history, and periods fire once per multiple. Counters restored from a snapshot, a file or a '
     'pickled monitor continue exactly where they were saved, and a snapshot never changes afterwards. What is '
     'written to tensorboard is what was recorded, under the right name and step.',
     ['inputs', 'histories'],
     'all environments, reward types, smoothing settings, metric names and values, all interleavings of reset, step, '
     'record_metrics, period, get/set/save/load counters',
     'No test of the monitor exists beyond one that wraps an environment for a few episodes.',
     ['coax/wrappers/_train_monitor.py'],
     ['counters @ coax/wrappers/_train_monitor.py TrainMonitor.step/reset',
      'period bookkeeping @ coax/wrappers/_train_monitor.py TrainMonitor.period',
      'snapshot and restore @ coax/wrappers/_train_monitor.py TrainMonitor.get_counters/set_counters'],
     'one case = one history on one scripted environment; distinct by smoothing, episode lengths and operations',
     RM + 'reference-model monitor over histories; SummaryWriter calls are recorded by a stand-in',
     'Held on the generated histories; wall-clock quantities are only checked for sanity.',
     observe=['T, ep, t, G, avg_G, metrics, SummaryWriter.add_scalar/add_histogram'])

prop('C21', 'Environment wrappers transform spaces and steps as documented',
     'For every wrapped environment and action: frame stacking returns the last k observations (the first one repeated '
     'after a reset); the action wrappers feed the environment exactly one element of its original action space per '
     'step, equal to the documented image of the given action (squashed real, bin centre on a regular grid, or meta '
     'policy choice), order- and range-preserving. Rewards, flags, info and reset keyword arguments pass unchanged '
     'through any stack of wrappers, and every observation and advertised action belongs to the advertised space.',
     ['inputs', 'histories'],
     'all Box shapes, bounds and dtypes, numbers of bins and frames, policies, histories of reset and step, and '
     'nesting orders',
     'Tests try one space per wrapper and compare a few actions; stacking after resets, bounds, dtypes and nesting '
     'are not sampled.',
     ['coax/wrappers/_box_spaces.py', 'coax/wrappers/_frame_stacking.py', 'coax/wrappers/_meta_policy.py'],
     ['bin lookup @ coax/wrappers/_box_spaces.py BoxActionsToDiscrete',
      'frame deque @ coax/wrappers/_frame_stacking.py FrameStacking.step/reset',
      'policy choice @ coax/wrappers/_meta_policy.py MetaPolicyEnv.step'],
     'one case = one wrapped recording environment driven through several episodes; distinct by space and wrapper',
     RM + 'trace monitor between wrapper and a recording environment',
     'Held on the generated spaces and histories.')

prop('C22', 'ConnectFourEnv plays connect four by the rules',
     'For every sequence of moves the board shown by the observation (relative to the player to move), the available '
     'actions and mask, the reward (one to the mover exactly when four in a row are completed, else zero) and the end '
     'of the game (exactly on a win or a full board) follow the rules of connect four. Full columns, invalid '
     'actions and steps after the end are refused without effect; distinct positions of a game have distinct state '
     'ids, and a restored state id shows the same position and plays on identically in any other instance.',
     ['inputs', 'histories'],
     'all games, all 69 winning lines for both players, all refused moves and all restore points',
     'No test exists for this environment.',
     ['coax/envs/_connect_four.py'],
     ['windowed line detection @ coax/envs/_connect_four.py ConnectFourEnv._done_reward',
      'base-conversion of the position @ coax/envs/_connect_four.py ConnectFourEnv.set_state'],
     'one case = three games (random, drawn or guided to a given winning line); distinct by line, player and length',
     RM + 'reference-model monitor (independent rules) over played games',
     'Held on the games played; every one of the 69 lines is targeted.')

prop('C23', 'Saved objects continue exactly where they were saved',
     'Any function approximator, updater, policy objective, tracer, buffer, distribution or plain structure that is '
     'dumped and loaded (in memory or through a file) behaves from then on exactly as the original would have: same '
     'outputs, same random draws, same transitions, same samples and the same training trajectory. References '
     'inside a saved structure are preserved, nothing is shared with the original, and the loaded object follows its '
     'own parameters.',
     ['histories', 'crash_points', 'inputs'],
     'all object kinds and configurations and all points of a training or collection history at which the save '
     'happens',
     'Tests dump and load a plain list and one policy; none continues a history after a restore.',
     ['coax/utils/_misc.py', 'coax/_core/base_func.py', 'coax/utils/_jit.py'],
     ['serialization by value @ coax/utils/_misc.py dump/load/dumps/loads',
      'jit-compiled functions dropped and rebuilt @ coax/utils/_jit.py JittedFunc'],
     'one case = one object or system saved at one point and continued; distinct by kind, configuration and point',
     RM + 'differential monitor: the original and the restored system are driven by the same inputs',
     'Held on the generated systems and save points; floating-point trajectories compared at 1e-4.')

prop('C24', 'Workers and the parameter store neither lose nor mix anything',
     'For every interleaving of rollout workers and learners around one parameter store, every transition traced by a '
     'worker arrives in the store\'s replay buffer exactly once and unmixed, workers act and learners update with '
     'the parameters they pulled, which are the ones last pushed, and counters and metrics report what happened. '
     'Learners draw batches of the requested size only once the buffer is warm, rollouts and learning stop at the '
     'step limit, and a store answers alike whether it is local, in process, remote or behind another store.',
     ['schedules', 'histories', 'configurations'],
     'all numbers of workers and learners, all interleavings of their remote calls and waits, all n-step settings, '
     'episode lengths, warm-ups, buffer kinds and chains of stores',
     'The worker has no test at all; interleavings of actors cannot be sampled by a handful of tests.',
     ['coax/_core/worker.py'],
     ['rollout and learn loops @ coax/_core/worker.py Worker.rollout_loop/learn_loop',
      'delegation to a store @ coax/_core/worker.py Worker.buffer_add/buffer_sample/pull_state/push_setattr'],
     'one case = one seeded interleaving of one generated agent; distinct by the observed schedule',
     RM + 'offline checker (exactly-once, ordering, conservation) over the log of remote calls; a stand-in actor '
     'runtime gives the monitor control over the schedule, thorough adds runs on the real runtime',
     'Held on the explored interleavings; the stand-in executes one call per actor at a time on pickled copies, as '
     'ray does.',
     ['actor calls are atomic and arguments are copied, as ray guarantees'],
     observe=['every remote call with caller, arguments and result; scheduling order; worker traces'])

prop('C25', 'Array, tree, sampling and environment helpers do what they document',
     'For every input, argmax and argmin return an extremal index with uniformly broken ties, tree and batch helpers '
     'keep leaves, order, shapes and rows together, numeric helpers and gradient diagnostics equal their '
     'definitions, and parameter synchronisation copies exactly the shared parameters. Sampled elements and '
     'example batches belong to the given spaces and depend only on the seed; array checks accept exactly what '
     'satisfies the stated conditions. Shown or recorded episodes feed the policy the current observation and end '
     'with the episode or the step limit, and type predicates and environment attribute lookups answer as documented.',
     ['inputs'],
     'all array shapes, dtypes and axes, tree structures, seeds, spaces, episode lengths and wrapper depths',
     'Tests sample one array or tree for some of the helpers and none for most.',
     ['coax/utils/_array.py', 'coax/utils/_misc.py'],
     ['random tie breaking @ coax/utils/_array.py argmax', 'tree stacking and batching @ coax/utils/_array.py stack_trees',
      'seeded space sampling @ coax/utils/_array.py safe_sample', 'episode loops @ coax/utils/_misc.py generate_gif'],
     'one case = one helper on generated inputs; distinct by helper, shape and structure',
     RM + 'differential monitor against numpy definitions; statistical monitor for tie breaking and sampling (z 6.5)',
     'Held on the generated inputs.')

prop('C26', 'Equal seeds give equal runs, whatever else happens in the process',
     'Two agents built from the same configuration and the same seeds produce the same parameters, actions, '
     'propensities, sampled batches, metrics and updates throughout training, even when global random generators '
     'are disturbed, other functions are used in between, or the run takes place in another process. Different '
     'seeds give different initial parameters and different draws, and successive draws are not repeated.',
     ['histories', 'configurations'],
     'all agents (value-based, distributional, policy gradient), functions, buffers, noises, seeds and disturbances',
     'No test runs anything twice.',
     ['coax/_core/base_func.py', 'coax/_base/mixins/_random_state.py', 'coax/experience_replay/_simple.py',
      'coax/experience_replay/_prioritized.py', 'coax/utils/_action_noise.py'],
     ['seeded key sequence @ coax/_base/mixins/_random_state.py RandomStateMixin',
      'seeded buffer sampling @ coax/experience_replay/_simple.py SimpleReplayBuffer.sample'],
     'one case = one system built and run twice; distinct by configuration',
     RM + 'differential monitor between repeated executions, in one process and across processes',
     'Held on the generated systems (CPU, one thread pool); values compared at 1e-6.')

prop('C27', 'A model update regresses on what was observed, and nothing else',
     'For every batch, the loss of a model update is the mean, with clipped importance weights, of the loss '
     'function between the preprocessed next state (transition models) or the transformed reward (reward functions) '
     'and the prediction or a sample of the predicted distribution, plus the regularizer, and the gradient is that '
     'loss\'s gradient. An update applies exactly one optimizer step to the model\'s parameters and state and to '
     'nothing else; gradients containing nan are refused without effect.',
     ['inputs', 'histories'],
     'all model types (deterministic and stochastic, type 1 and type 2), observation and action spaces, transforms, '
     'loss functions, regularizers, weights, optimizers and batch sizes',
     'Tests check that parameters move after one update of one model.',
     ['coax/model_updaters/_model_updater.py'],
     ['regression loss @ coax/model_updaters/_model_updater.py ModelUpdater.__init__',
      'nan guard @ coax/model_updaters/_model_updater.py ModelUpdater.update'],
     'one case = one model with several parameter settings and batches; distinct by configuration and size',
     RM + 'differential monitor against a float64 oracle (loss, finite-difference gradients), isolation snapshots',
     'Held on the generated configurations; noisy samples compared statistically.')

prop('C28', 'Exploration noise, schedules and averages follow their processes',
     'Ornstein-Uhlenbeck noise is the stated mean-reverting process, restarted by a reset, and the noisy action always '
     'lies within the stated bounds. A step-wise linear schedule passes through its points, is linear in between '
     'and constant outside; rolling and exponential averages equal those of the values observed so far.',
     ['inputs', 'histories'],
     'all parameters (scalar and array), action shapes, histories of calls and resets, schedules and windows',
     'Tests check the moments of one noise process; schedules and averages have no test.',
     ['coax/utils/_action_noise.py', 'coax/utils/_array.py', 'coax/utils/_rolling.py'],
     ['noise process @ coax/utils/_action_noise.py OrnsteinUhlenbeckNoise.__call__',
      'interpolation @ coax/utils/_array.py StepwiseLinearFunction', 'ring buffer @ coax/utils/_rolling.py RollingAverage'],
     'one case = one process with one history; distinct by kind and parameters',
     RM + 'reference-model monitor over histories (exact recursions driven by a copied generator)',
     'Held on the generated histories.')

prop('C29', 'Agents assembled from the parts learn the exact values of small environments',
     'In a finite deterministic environment with tabular function approximators, the documented training loops reach '
     'what dynamic programming computes: value-based updaters reach the (soft, expected or optimal) action values, '
     'n-step and Monte-Carlo evaluation reach the value of the policy, replay-buffer agents act optimally, policy '
     'gradients prefer the best action, actor-critic objectives climb to the maximum of the critic, and distributional '
     'critics have the exact return as their mean. No error is left at the fixed point.',
     ['inputs', 'histories'],
     'all small environments, discount factors, step counts, value transforms, model types, updaters, tracers, replay '
     'buffers and behaviour policies',
     'The tests run one update on random data and look at which parameters changed; none checks that an agent learns.',
     ['coax/td_learning', 'coax/reward_tracing', 'coax/experience_replay', 'coax/policy_objectives', 'coax/_core'],
     ['updates @ coax/td_learning/_base.py', 'targets @ coax/td_learning', 'tracing @ coax/reward_tracing/_nstep.py',
      'objectives @ coax/policy_objectives/_base.py'],
     'one case = one environment and one agent trained to the end; distinct by algorithm and configuration',
     RM + 'end-to-end monitor: complete training runs in the real library judged against numpy dynamic programming',
     'Held on the generated environments; learning runs judged within stated tolerances.')

prop('C30', 'DeepMind Control tasks are presented faithfully',
     'make_dmc(domain, task, ...) gives the suite task of that name under the given seed: observations are the '
     "task's observations in order, flattened to float32, rewards and actions pass through unchanged, terminated is "
     'set exactly when the task ends and truncated at max_episode_steps; spaces carry the bounds of the specs; '
     'reset(seed=...) reproduces the episode. Every call honours its own seed, step limit, frame size and camera, '
     'whatever was created before.',
     ['inputs', 'histories'],
     'all suite tasks (but one that needs OpenGL), seeds, step limits, frame arguments, sequences of calls and actions',
     'No test creates a DeepMind Control environment.',
     ['coax/utils/_dmc_gym.py'],
     ['construction @ coax/utils/_dmc_gym.py make_dmc', 'steps @ coax/utils/_dmc_gym.py DmcGymWrapper.step',
      'spaces @ coax/utils/_dmc_gym.py spec_to_box'],
     'one case = one task driven for some episodes next to its twin; distinct by task and arguments',
     RM + 'differential monitor: a second copy of the suite task driven directly with the same seed and actions',
     'Held on the driven episodes; rendering is observed at the call into the physics engine, not in pixels.')

prop('C31', 'What does not fit is refused when it is put together',
     'A function approximator is accepted exactly when its signature is the documented one and its output has the '
     'structure, shapes and (for v and q) floating dtype that its spaces demand; anything else raises TypeError at '
     'construction, and example_data shows data of the asked batch size that fit. Updaters, objectives, '
     'regularizers and value-based policies refuse objects of the wrong kind, missing policies and too few targets; '
     'transitions, buffers, wrappers and distributions refuse arguments outside their documented domain; a refusal '
     'changes nothing.',
     ['inputs'],
     'all function types, signatures, output structures and shapes, observation and action spaces, batch sizes, and '
     'combinations of objects handed to the algorithms',
     'Tests try a few hand-written bad functions per class, on one pair of spaces.',
     ['coax/_core', 'coax/td_learning', 'coax/policy_objectives', 'coax/regularizers', 'coax/model_updaters',
      'coax/experience_replay', 'coax/reward_tracing/_transition.py', 'coax/wrappers', 'coax/proba_dists'],
     ['signature and output checks @ coax/_core/base_func.py BaseFunc.__init__',
      'type checks @ coax/td_learning/_base.py', 'input checks @ coax/reward_tracing/_transition.py _check_inputs'],
     'one case = one class on generated spaces with single-defect variants of a fitting function, or one assembly; '
     'distinct by class, defect and combination of kinds',
     RM + 'fault injection: every fitting object is rebuilt with one defect at a time and the refusal observed',
     'Held on the generated spaces and defects.')
