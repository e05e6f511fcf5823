NA = {}
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, note=note))


FM = 'simulators/fetorch/math/'
FE = 'simulators/fetorch/element/'
P('P01', 'Matricial (Kelvin) storage is a lossless isometry',
  'Storing any second- or fourth-order tensor in matricial form and reading it back returns the '
  'same tensor, in 2D and 3D, for symmetric and non-symmetric component orders. Inner products of '
  'symmetric tensors and contractions of a fourth- with a second-order tensor equal the plain '
  'vector and matrix products of the stored forms, and the scalar and vectorised conversions '
  'agree. Moving a state between the in-plane and the 3D form keeps every in-plane component in '
  'its place, zero-fills the out-of-plane shears and stores the given out-of-plane component.',
  ['inputs', 'configurations'],
  'every real tensor, every dimension, every supported component order',
  'the component order, the factor sqrt(2) and the in-plane/out-of-plane positions interact; '
  'tests sample a few integer tensors',
  [FM + 'matrixops.py'],
  [('get_tensor_mf/get_tensor_from_mf and vectorised twins', FM + 'matrixops.py'),
   ('get_state_3Dmf_from_2Dmf/get_state_2Dmf_from_3Dmf', FM + 'matrixops.py')],
  'Bounds: all real tensors; the built-in component orders plus one permuted order per dimension.')
P('P02', 'Voigt notation is work conjugate',
  'For every stress and strain, the Voigt stress vector times the engineering strain vector equals '
  'the tensor inner product. Reading a strain tensor back from its engineering vector is exact and '
  'symmetric, the scalar and vectorised conversions agree, and the volumetric and deviatoric '
  'projections split every stress vector additively into its mean and deviatoric parts.',
  ['inputs', 'configurations'],
  'every real symmetric stress and strain in 2D and 3D, every supported component order',
  'the factor 2 of the shear components must match in two conversions for every component order',
  [FM + 'voigt_notation.py'],
  [('get_strain_from_vmf/get_stress_vmf and vectorised twins', FM + 'voigt_notation.py'),
   ('get_projection_tensors_vmf', FM + 'voigt_notation.py')],
  'Bounds: all real tensors in 2D/3D, two component orders each.')
P('P03', 'Tensor products and identity operators follow their index formulas',
  'Every tensor product and contraction equals its documented index expression for all operands, '
  'in 2D and 3D. The identity, transposition, symmetrisation, trace and deviatoric operators act '
  'on every tensor as their names say, and the derivative of the inverse of a symmetric tensor is '
  'exact in every direction.',
  ['inputs', 'configurations'],
  'every real operand, dimensions 2 and 3',
  'an exchanged index pair is invisible on symmetric or diagonal samples',
  [FM + 'tensorops.py'],
  [('dyad*, dot*, ddot*', FM + 'tensorops.py'), ('get_id_operators, fo_dinv_sym', FM + 'tensorops.py')],
  'Bounds: all real operands; inverse derivative for |det|>=0.1, entries within [-3,3].')
P('P04', 'Shape functions reproduce nodal and polynomial fields',
  'For every element type and every local point, the shape functions sum to one, interpolate '
  'linear fields exactly (quadratic fields too for quadratic elements) and equal one at their own '
  'node and zero at all others. The local derivatives returned by the element are the exact '
  'derivatives of its shape functions.',
  ['inputs', 'configurations'],
  'every local coordinate (not only the nodes), all eight element types',
  'tests evaluate a few points per element; a wrong derivative term can vanish at those points',
  [FE + 'type/' + x + '.py' for x in ('tri3', 'tri6', 'quad4', 'quad8', 'tetra4', 'tetra10', 'hexa8', 'hexa20')],
  [('_admissible shape functions and local derivatives', FE + 'type/')],
  'Bounds: none on the local coordinate.')
P('P05', 'Quadrature integrates polynomials of its degree exactly',
  'Every available Gauss rule integrates every polynomial of its nominal degree exactly over its '
  'parent domain, with positive weights and points inside the domain; point counts that are not '
  'available are rejected. The points and weights exposed by an element, individually or batched, '
  'are those of the rule it was built with, and a caller cannot change them through what it was given.',
  ['inputs', 'configurations'],
  'every polynomial of the nominal degree, every rule and element type',
  'the guarantee is a statement over a whole polynomial space and all listed rules',
  [FE + 'type/quadratures.py', FE + 'type/interface.py'],
  [('gauss_quadrature', FE + 'type/quadratures.py'),
   ('get_gauss_integration_points', FE + 'type/interface.py')],
  'Bounds: all coefficients; every rule of the repository.')
P('P06', 'Element gradients are exact for affine fields',
  'For every non-degenerate element geometry, the Jacobian and its determinant are those of the '
  'isoparametric map, shape-function gradients satisfy the chain rule, the gradient of every affine '
  'field is exact and rigid motions produce no strain. The discrete gradient operators applied to '
  'nodal displacements give the engineering strain and the displacement gradient in the stated '
  'component order; scalar and vectorised versions agree. A non-positive Jacobian determinant is '
  'reported exactly when the check is requested.',
  ['inputs', 'configurations'],
  'every element geometry and displacement field',
  'tests use one or two geometries per element; index errors vanish on parallelograms',
  [FE + 'derivatives/jacobian.py', FE + 'derivatives/gradients.py', FE + 'integrations/internal_forces.py'],
  [('eval_jacobian', FE + 'derivatives/jacobian.py'),
   ('eval_shapefun_deriv, build_discrete_*gradient', FE + 'derivatives/gradients.py'),
   ('compute_infinitesimal_*strain', FE + 'integrations/internal_forces.py')],
  'Bounds: coordinates in [-5,5]; larger elements have some nodes fixed (see evidence).')
FS = 'simulators/fetorch/structure/'
MS = 'simulators/fetorch/material/models/standard/'
MV = 'simulators/fetorch/material/models/vmap/'
P('P07', 'Element internal forces obey the principle of virtual work',
  'For every element type, geometry and displacement history, the internal forces of an element do '
  'the same work on every virtual nodal displacement as its stresses do on the virtual strain, '
  'integrated with the quadrature of the element, so they have zero resultant; the scalar and the '
  'vectorised evaluation agree. A linear elastic element under an affine displacement produces '
  'exactly the forces of the constant stress state. Every Gauss point carries its own strain '
  'history and material state: the response of one never depends on the history of another.',
  ['inputs', 'histories', 'configurations'],
  'every virtual displacement, strain history, element type and quadrature',
  'tests compare a few numbers; balance and history separation must hold for every geometry and path',
  [FE + 'integrations/internal_forces.py', 'simulators/fetorch/material/material_su.py'],
  [('compute_element_internal_forces*, compute_local_gauss*', FE + 'integrations/internal_forces.py'),
   ('material_state_update', 'simulators/fetorch/material/material_su.py')],
  'Bounds: larger elements have a fixed distorted geometry; strains in [-1,1].')
P('P08', 'Mesh assembly and extraction are adjoint and keep node numbering',
  'For every mesh connectivity and every nodal or element field, assembling element quantities '
  'adds each element contribution exactly at the degrees of freedom of its nodes, and extracting '
  'element quantities from a mesh field returns the values of exactly those nodes in element '
  'order; the two are adjoint, and the scalar and vectorised versions agree. After any sequence of '
  'configuration updates the mesh reports the coordinates and displacements last set, with '
  'coordinates = reference coordinates + displacements, and data handed to or received from the mesh can be changed by '
  'the caller without affecting it. Inconsistent meshes are rejected.',
  ['inputs', 'histories', 'configurations'],
  'every nodal field on the listed meshes, every sequence of configuration updates',
  'numbering errors cancel on symmetric samples; aliasing appears only in particular call sequences',
  [FS + 'structure_mesh.py'],
  [('element_assembler/element_extractor', FS + 'structure_mesh.py'),
   ('update_mesh_configuration, get_element_configuration', FS + 'structure_mesh.py')],
  'Bounds: meshes of two to four elements (2D, 3D); update sequences of three operations (quick).')
P('P09', 'Committed material states never change behind the caller',
  'After every sequence of state updates, convergence commits and reads, the material state reported for '
  'an element at the current and at the last converged time is the one last stored there (or '
  'committed), whatever the caller does to the objects it passed in or received. Each element uses '
  'the material and parameters it was assigned and no other.',
  ['inputs', 'histories'],
  'every sequence of operations on two elements with arbitrary state values',
  'aliasing between current, converged and caller-owned states shows only in particular sequences',
  [FS + 'structure_state.py'],
  [('update_element_state, get_element_state, update_converged_elements_state', FS + 'structure_state.py'),
   ('init_elements_model', FS + 'structure_state.py')],
  'Bounds: all sequences of three (thorough: four) operations on two elements.')
P('P10', 'Linear elasticity is Hooke\'s law for every modulus',
  'For every admissible pair of elastic constants, strain and path, the elastic model (standard and '
  'vectorised) returns the stress of the isotropic Hooke law and the elastic strain equal to the '
  'total strain, in 3D and in plane strain including the out-of-plane stress. The tangent is '
  'symmetric, positive and independent of the path, the technical constants and the elastic '
  'moduli describe the same material, and unadmitted symmetries or incomplete constants are rejected.',
  ['inputs', 'histories', 'configurations'],
  'all Young moduli in [0.1,1000], Poisson ratios in [-0.9,0.45], all strains and paths',
  'tests fix one material; errors in the conversions need particular constants',
  [MS + 'elastic.py', MV + 'elastic.py'],
  [('elastic_tangent_modulus, get_technical_from_elastic_moduli', MS + 'elastic.py'),
   ('state_update', MS + 'elastic.py'), ('state_update', MV + 'elastic.py')],
  'Bounds: constants as stated; all strains.')
P('P11', 'Hardening laws return yield stress and its exact slope',
  'For every set of parameters and every accumulated plastic strain, each hardening law returns the '
  'documented yield stress and, as slope, its derivative; the piecewise-linear law interpolates its '
  'points, is constant outside them, and negative arguments count as zero. The data checks reject '
  'negative strains and unordered points and never change a valid result.',
  ['inputs', 'configurations'],
  'all hardening parameters and strains; up to four (thorough: five) hardening points',
  'kinks, end points and wrong slopes are missed by sampled strains; Newton iterations hide a wrong slope',
  [MS + 'hardening.py'],
  [('get_hardening_law', MS + 'hardening.py'), ('torch_interp', MS + 'hardening.py')],
  'Bounds: spacing of points 0.01..1; exponents 1, 2, 0.5, 0.3 and symbolic in [0.1,0.9].')
P('P12', 'Von Mises return mapping ends on the yield surface',
  'For every previous state, strain increment and hardening law, the von Mises update (standard and '
  'vectorised, 3D and plane strain) is elastic exactly when the trial stress does not exceed the '
  'yield stress; otherwise the new stress lies on the yield surface of the new accumulated plastic '
  'strain, the plastic strain increment is deviatoric and along the trial direction, and its size '
  'equals the growth of the accumulated plastic strain. The stress is always the Hooke stress of '
  'the elastic strain, the total strain grows by the increment, and an iteration that does not '
  'converge is reported as failed with no numbers.',
  ['inputs', 'histories', 'configurations'],
  'every previous state and increment, every hardening law (arbitrary values at each evaluation)',
  'consistency must hold for all states and laws; tests follow single load paths',
  [MS + 'von_mises.py', MV + 'von_mises.py'],
  [('state_update', MS + 'von_mises.py'), ('state_update, _plastic_step', MV + 'von_mises.py')],
  'Bounds: E=100, v=0.25; strains in [-0.05,0.05]; at most two (thorough: three) Newton iterations for arbitrary laws.')
P('P13', 'Mixed-hardening return mapping ends on the translated surface',
  'For every previous state with any deviatoric back stress and every strain increment, the mixed '
  'hardening von Mises update is elastic exactly when the trial relative stress does not exceed the '
  'yield stress; otherwise the stress relative to the new back stress lies on the yield surface, '
  'plastic flow is along the relative stress and its size is the growth of the accumulated plastic '
  'strain, and the back stress moves along the flow by two thirds of the growth of the kinematic '
  'hardening curve. Without kinematic hardening the result is that of the isotropic model.',
  ['inputs', 'histories', 'configurations'],
  'every previous state, back stress and increment',
  'a wrong factor in the back stress shows only in reversed or non-proportional loading',
  [MS + 'von_mises_mixed.py', MV + 'von_mises_mixed.py'],
  [('state_update', MS + 'von_mises_mixed.py'), ('state_update, _plastic_step', MV + 'von_mises_mixed.py')],
  'Bounds: E=100, v=0.25; strains in [-0.05,0.05], back stress in [-3,3].')
P('P14', 'Drucker-Prager return mapping ends on the cone or its apex',
  'For every previous state, strain increment and hardening law, the Drucker-Prager update (standard '
  'and vectorised, 3D and plane strain) is elastic exactly inside the cone; otherwise it returns '
  'to the cone with the stated deviatoric and volumetric flow, or to the apex, with no deviatoric '
  'stress, exactly when the return to the cone would leave it. The stress is the Hooke stress of '
  'the elastic strain, total strain is additive and the accumulated plastic strain grows by the '
  'stated multiple of the plastic multiplier.',
  ['inputs', 'histories', 'configurations'],
  'every previous state and increment, arbitrary hardening laws along one strain direction',
  'the cone/apex switch lies on a surface that sampled paths cross at random',
  [MS + 'drucker_prager.py', MV + 'drucker_prager.py'],
  [('state_update', MS + 'drucker_prager.py'), ('_plastic_step_cone, _plastic_step_apex', MV + 'drucker_prager.py')],
  'Bounds: one set of elastic and cone parameters; strains in [-0.05,0.05]; see evidence.')
ML = 'simulators/fetorch/material/models/'
P('P15', 'Lou-Zhang-Yoon updates return to the yield surface by its flow rule',
  'For every previous state and strain increment, an update is elastic exactly when the trial effective stress '
  'a(b I1 + (sqrt(J2^3 - c J3^2) - d J3)^(1/3)) does not exceed the yield stress, and then changes nothing else; otherwise '
  'the new stress lies on the hardened yield surface, plastic strain follows the normal to it, accumulated plastic strain grows by the '
  'multiplier (or its norm), and tension beyond the apex returns to the apex. The linear system of each '
  'iteration is the exact linearisation of these equations for every hardening slope. A return '
  'mapping that does not converge is flagged and yields no state; states start at zero; both implementations agree with this.',
  ['inputs', 'configurations'],
  'every elastic strain along a uniaxial or triaxial direction plus any volumetric strain, every increment, hardening slope and multiplier',
  'the derivatives of the yield function interact with hardening of all its parameters; a wrong one only costs convergence in rare states',
  [ML + 'standard/lou.py', ML + 'vmap/lou.py'],
  [('state_update, get_residual_and_jacobian', ML + 'standard/lou.py'), ('_plastic_step_cone, _plastic_step_apex', ML + 'vmap/lou.py')],
  'Bounds: E=100, v=0.25, one set of yield parameters per direction, strain within 0.05, linear hardening; linear solves are exact; the return '
  'to the cone does not pass its apex.')
P('P16', 'Consistent tangents are the derivative of the stress update',
  'For every previous state and strain increment off the elastic-plastic boundary, the consistent '
  'tangent returned by the von Mises, mixed-hardening and Drucker-Prager models (standard and '
  'vectorised, 3D and plane strain, cone and apex) equals the derivative of the updated stress with '
  'respect to the strain increment.',
  ['inputs', 'configurations'],
  'every previous state and increment within the bounds, all tangent components',
  'a wrong tangent only slows down a solver or biases gradients; no test of stresses can see it',
  [MS + 'von_mises.py', MV + 'von_mises.py', MS + 'von_mises_mixed.py', MV + 'von_mises_mixed.py',
   MS + 'drucker_prager.py', MV + 'drucker_prager.py'],
  [('consistent tangent in state_update', MS + 'von_mises.py'),
   ('consistent tangent in state_update', MS + 'drucker_prager.py')],
  'Bounds: strains in [-0.05,0.05], linear hardening.')
RC = 'model_architectures/rc_base_model/model/recurrent_model.py'
P('P17', 'A state update never touches its caller\'s data',
  'Every material model returns a new state with the same keys, component layout and precision as '
  'the model\'s initial state, without changing the increment, the previous state or the model '
  'parameters it was given, and gives the same answer when asked again. Converting a '
  'state or parameter dictionary to another precision or to tensors converts every nested number, '
  'keeps every other entry and, out of place, leaves the original untouched.',
  ['inputs', 'histories', 'configurations'],
  'every previous state and increment, all models, both problem types, both precisions, elastic and plastic steps',
  'an aliased state variable is only seen when the caller looks at the old state after a plastic step',
  ['utilities/type_conversion.py', MS + 'von_mises.py', MV + 'von_mises.py', MS + 'elastic.py'],
  [('state_update, state_init', MS + 'von_mises.py'),
   ('convert_dict_to_tensor, convert_tensor_to_float*', 'utilities/type_conversion.py')],
  'Bounds: linear hardening, one strain direction of any size; see evidence.')
P('P18', 'The recurrent constitutive model is the material model stepped along the path',
  'For every strain path the recurrent constitutive model returns, at each time, exactly the stress '
  'and requested state variables obtained by stepping its material model through the increments '
  'from the virgin state; the first row is the virgin state. Batching paths, evaluating again, '
  'saving and reloading the model and the vectorised path give the same answer, and a '
  'failed state update is reported instead of returned as a response.',
  ['inputs', 'histories', 'configurations'],
  'every strain path of the stated length, elastic and plastic steps, unloading, all models and problem types',
  'history dependence: a state carried to the wrong step or path only shows up after several increments',
  [RC],
  [('forward, _recurrent_constitutive_model, vmap variant', RC)],
  'Bounds: paths of up to three increments (plastic models: one free increment after a given one), batches of two.')
P('P19', 'Learnable parameters reach the material model within their bounds',
  'Mapping a learnable parameter to its normalised form and back is the identity, maps the bounds '
  'to -1 and 1 and agrees with the bounds reported for it. After synchronisation the material model '
  'holds exactly the denormalised value of every learnable parameter, in the right slot, the '
  'friction angle sets the coupled cone parameters, all other parameters are untouched and '
  'the response is that of a model built with those values. Enforcing the bounds clamps every '
  'parameter to its bounds and changes nothing inside them.',
  ['inputs', 'configurations'],
  'every parameter value and every pair of bounds, every learnable slot of every model',
  'a value written to the wrong slot trains a different parameter without any error',
  [RC],
  [('get_model_parameters, sync_material_model_parameters, parameter transforms, enforce_parameters_bounds', RC)],
  'Bounds: bounds of width 0.1 to 100, friction angle in [0.1,1.2].')
MF = 'material_model_finder/'
P('P20', 'The force equilibrium loss is the weighted squared out-of-balance force',
  'For every displacement and reaction history, the loss of the material model finder equals the '
  'scaled, time-weighted sum of squared differences between the internal forces of the material '
  '(integrated over the elements) and the measured reactions on prescribed degrees of freedom, and zero on free ones; '
  'with Dirichlet sets, set resultants are compared instead. It is zero at equilibrium. Element by '
  'element and vectorised evaluation agree, force normalisation only rescales each direction, '
  'material models working on normalised features give the same result as their physical form, stored loss components '
  'add up to the loss, stored local paths are the strains and stresses of the integration points, and inputs are unchanged.',
  ['inputs', 'histories', 'configurations'],
  'every displacement history, reaction history, time weight and scale, history dependent materials, three element types',
  'the loss is the only training signal: an assembly or sign slip yields a plausible number and silently wrong materials',
  [MF + 'model/material_discovery.py', MF + 'data/specimen_data.py', 'simulators/fetorch/structure/structure_mesh.py'],
  [('forward_sequential_element, vforward_sequential_element, force_equilibrium_loss, vforce_equilibrium_loss', MF + 'model/material_discovery.py'),
   ('update_specimen_mesh_configuration, get_batched_mesh_configuration_hist', MF + 'data/specimen_data.py')],
  'Bounds: two-element meshes, two time steps (thorough: three), a linear history dependent material and elasticity.')
P('P21', 'Data scalers invert exactly and scale by the data they were fitted to',
  'For every tensor and parameters, normalising is the affine map fixed by the scaler\'s bounds (min-max) '
  'or mean and standard deviation and denormalising is its exact inverse, in both directions, for '
  'one- to three-dimensional data, with or without data checks; a zero standard deviation leaves a feature unscaled. '
  'Fitting uses all samples of all sequences, parameters given instead of fitted are used as given, and '
  'models apply the scaler of the right features, preserve precision and shape, and '
  'report scalers that are missing or do not fit.',
  ['inputs', 'configurations'],
  'every value, bound, mean and deviation, both scaler types, input and output features',
  'a scaler off by one feature or shift trains and predicts plausible but wrong responses',
  ['utilities/data_scalers.py', 'utilities/fit_data_scalers.py', 'model_architectures/procedures/model_data_scaling.py'],
  [('TorchMinMaxScaler, TorchStandardScaler', 'utilities/data_scalers.py'),
   ('data_scaler_transform, set_fitted_data_scalers, fit_data_scalers', 'model_architectures/procedures/model_data_scaling.py')],
  'Bounds: up to 2x2 samples of one or two features, min-max features of width at least 0.01.')
TD = 'time_series_data/time_dataset.py'
P('P22', 'Time series data sets return the samples they were given',
  'A data set, in memory or on disk, returns every sample unchanged; splits are disjoint, complete and '
  'traceable to the parent; batches hold each sample of an epoch exactly once, in its column, in any shuffling; '
  'concatenated, summed and relabelled features are the stated combination for every sample and leave '
  'the others alone; saving, loading and moving a data set preserve its content; invalid '
  'sizes and indices are rejected.',
  ['inputs', 'schedules', 'configurations'],
  'every sample value, every shuffling of an epoch, in-memory and stored data sets',
  'a shuffled batch or a split only mixes up samples for some orders',
  [TD],
  [('split_dataset, concatenate_dataset_features, sum_dataset_features, get_time_series_data_loader, save_dataset, load_dataset', TD)],
  'Bounds: two to four samples of one or two features; every order of an epoch is covered by forking.')
SP = 'data_generation/strain_paths/'
P('P23', 'Generated strain paths stay within their bounds',
  'For every random draw, a generated strain path has the requested times and components, starts '
  'undeformed and keeps every component within its bounds. Components with coinciding bounds keep that '
  'value, proportional paths keep their direction, cycles retrace the forward path and end at the initial strain, '
  'prescribed increment norms are met exactly, noise is added to all but the initial strain, and '
  'seeding reproduces the path. Generated noise is drawn with the requested distribution, amplitude and weights. '
  'Inconsistent bounds and settings are rejected.',
  ['inputs', 'schedules', 'configurations'],
  'every sequence of random draws, every pair of bounds around zero, both generators, both dimensions',
  'overshooting both bounds needs particular draws',
  [SP + 'random_path.py', SP + 'proportional_path.py', SP + 'interface.py', SP + 'noise_generator.py'],
  [('generate_strain_path', SP + 'random_path.py'), ('generate_strain_path', SP + 'proportional_path.py'),
   ('generate_noise_path', SP + 'noise_generator.py')],
  'Bounds: up to 9 times, up to 4 control points, bounds of either side between 0.01 and 1.')
HB = 'model_architectures/hybrid_base_model/model/'
RB = 'model_architectures/rnn_base_model/'
P('P24', 'The GRU material model computes the gated recurrent unit recursion',
  'For every weight, input and initial hidden state, the custom GRU cell and multi-layer network compute exactly the '
  'gated recurrent unit equations (reset, update and candidate gates, layer by layer, step by step) and agree with the standard '
  'library implementation given the same parameters; the model maps its features through the network and the linear output layer, '
  'with or without normalisation, batched or not, causally in time and independently for each batch '
  'sample, leaving inputs unchanged.',
  ['inputs', 'histories', 'configurations'],
  'every weight, bias, feature history and hidden state; layers, batches, both GRU sources',
  'a wrong gate, layer order or hidden state only changes numbers which a trained network would absorb',
  [RB + 'custom/gru_vmap.py', RB + 'model/gru_model.py'],
  [('GRUCell, GRU', RB + 'custom/gru_vmap.py'), ('GRURNNModel.forward', RB + 'model/gru_model.py')],
  'Bounds: up to two layers, two or three time steps, hidden sizes 1 and 2; sigmoid and tanh are uninterpreted with their sign and range facts.')
P('P25', 'Hybrid models combine their material models as specified',
  'For every input, a hybrid model output is the stated composition of its hybridized models: identity, '
  'additive, residual connection or volumetric/deviatoric, each hybridized model receiving the features of its stage '
  'in its own (normalised or physical) form, channel by channel. Batched elastic and polynomial models compute '
  'the stated law per sample and time, strain and stress features are the stated invariants and '
  'volumetric/deviatoric parts, inputs are unchanged and invalid configurations are rejected.',
  ['inputs', 'configurations'],
  'every feature, weight and scaler parameter, every hybridization type and normalisation combination',
  'a normalisation applied twice or a residual wired to the wrong stage still trains',
  [HB + 'hybrid_model.py', HB + 'hybridized_model.py', HB + 'hybridized_layers.py', HB + 'hybridization.py',
   'model_architectures/materials/strain_features.py', 'model_architectures/materials/stress_features.py'],
  [('HybridModel.forward and hybridization types', HB + 'hybrid_model.py')],
  'Bounds: two time steps, one or two batch samples, up to three hybridized models in two channels.')
PR = 'model_architectures/procedures/'
P('P26', 'Predictions, losses and denoised histories are what they claim to be',
  'For every data set and model parameters, a prediction run stores for each sample the denormalised model output, the untouched '
  'target and the loss between them (normalised when asked), returns the average loss over all samples whatever the batch '
  'size, and never overwrites earlier results or the data. Mean squared and relative errors follow their '
  'definition including vanishing targets; metrics are per feature and averaged over samples; collected '
  'prediction arrays pair each target with its own prediction. Denoisers return the moving average, local '
  'least-squares polynomial or low-pass part of each feature, in its precision.',
  ['inputs', 'configurations'],
  'every feature, target, scaler and model parameter; three model families; batch sizes; window sizes; cutoffs',
  'a target paired with the wrong sample or a loss on normalised data gives a plausible figure',
  ['model_architectures/rnn_base_model/predict/prediction.py', 'model_architectures/hybrid_base_model/predict/prediction.py',
   'model_architectures/rc_base_model/predict/prediction.py', 'utilities/loss_functions.py', 'utilities/prediction_metrics.py',
   'utilities/output_prediction_metrics.py', 'utilities/data_denoisers.py', 'model_architectures/materials/process_predictions.py',
   PR + 'model_prediction.py'],
  [('predict, compute_sample_prediction_loss', 'model_architectures/rc_base_model/predict/prediction.py'),
   ('MeanRelativeErrorLoss', 'utilities/loss_functions.py'), ('Denoiser', 'utilities/data_denoisers.py')],
  'Bounds: up to three samples of two times and one or two features; denoisers up to six times; Fourier lengths 2, 3, 4, 6.')
P('P27', 'Training keeps, restores and reports the best model',
  'For every sequence of losses, validation losses and optimiser updates, training performs one update per batch on the '
  'loss of the current model with correctly scaled data, stops exactly when the early stopping or parameter convergence '
  'criterion is met, and leaves the model with the lowest loss (or, after early stopping, the best validation) in the single best state file '
  'and, when stopped, in the returned model. Validation does not disturb training. State files load back the parameters saved '
  'under that epoch, later epochs are dropped on resuming and saving, learned parameters respect their bounds after every update, and loss, '
  'validation and parameter histories and best parameters are recorded as they occurred.',
  ['histories', 'schedules', 'configurations'],
  'every order of training and validation losses, every optimiser, three model families, batches, save and validation frequencies',
  'which epoch is best, and what is on disk, depends on the order of losses that a test cannot enumerate',
  ['model_architectures/rnn_base_model/train/training.py', 'model_architectures/hybrid_base_model/train/training.py',
   'model_architectures/rc_base_model/train/training.py', PR + 'model_state_files.py', PR + 'model_training.py'],
  [('train_model, EarlyStopper', 'model_architectures/rc_base_model/train/training.py'),
   ('save_model_state, load_model_state', PR + 'model_state_files.py')],
  'Bounds: up to three epochs (thorough: four) of one or two batches; losses in [0.1, 10]; optimiser and loss are arbitrary.')

DG = 'data_generation/spdg/'
P('P28', 'Generated patches are meshed regularly and deform as prescribed',
  'For every random draw, a generated material patch has a regular mesh (each node once, at its grid position, for all '
  'element types) and displacements on exactly its boundary nodes. Corner displacements respect their ranges, fixed degrees of freedom '
  'stay fixed, edges of zero order stay parallel, straight edges stay straight and evenly divided, curved edges follow '
  'the random polynomial through the corners with control values in the outward range given, faces follow a homogeneous corner deformation, '
  'rigid motions rotate about the centroid and then translate and are skipped when not requested, noise leaves corners '
  'alone, and configurations are retried until the closed counter-clockwise boundary polygon is valid or the attempts run out.',
  ['inputs', 'schedules', 'configurations'],
  'every sequence of random draws, corner displacement, range, rotation angle and translation; eight element types; both dimensions',
  'a boundary condition assigned to the wrong node or a rotation about the wrong point still gives a plausible specimen',
  [DG + 'patch_generator.py', DG + 'patch.py', 'simulators/links/discretization/finite_element.py'],
  [('generate_deformed_patch', DG + 'patch_generator.py'), ('FiniteElementPatch', DG + 'patch.py'),
   ('FiniteElement', 'simulators/links/discretization/finite_element.py')],
  'Bounds: meshes of up to 2x2 (2x2x2) elements, edge polynomials up to order three, the polyline that measures an edge has 2 to 5 points '
  'instead of 1000; polygon validity and centroid (shapely) are arbitrary.')

MF = 'material_model_finder/'
P('P29', 'Learning from specimen data keeps, bounds and reports the best parameters',
  'For every sequence of force equilibrium losses and optimiser updates, the material model finder performs one update per epoch of the '
  'parameters of all materials of the specimen, keeps explicit parameters within their bounds and constraints after every update, '
  'stops exactly when all parameters have converged (when asked), and leaves one best state (the epoch of lowest loss) of the '
  'finder, its optimiser and each material, the initial, periodic and last states, in separate directories per material, '
  'each holding the parameters of its own epoch. Loss, learning rate and physical parameter histories, bounds and best '
  'parameters are recorded as they occurred; nested parameters are all found.',
  ['histories', 'schedules', 'configurations'],
  'every order of losses, every optimiser, one or two materials, normalised or physical parameters, save frequencies',
  'the parameters reported as discovered depend on the order of losses and on which material they belong to',
  [MF + 'train/training.py', MF + 'utilities/torch_parameters.py', MF + 'model/material_discovery.py'],
  [('train_model', MF + 'train/training.py'), ('get_model_parameter_dict', MF + 'utilities/torch_parameters.py')],
  'Bounds: up to three epochs (thorough: four), two materials with one parameter each; optimiser and loss are arbitrary (the loss itself is P20).')

SY = 'user_scripts/synthetic_data/'
P('P31', 'Generated response data sets are the material response to their strain paths',
  'For every strain path, noise draw and history-dependent material, each generated sample holds its own strain path, time history, the '
  'stresses of the material stepped along exactly that path from its initial state (components in the stated order) and '
  'the requested state variables; a path on which the state update fails is discarded and drawn again, at most a limited number of times. '
  'Noise never touches the initial strain, is applied in the scale of the given scaler, is weighted by the strain norm over the given '
  'normaliser or the maximum of the path, and the stored stress noise is the difference to the noiseless response. Reading files '
  'keeps their numeric order, picks the components of the problem type and leaves out files without response. Inputs are not modified.',
  ['inputs', 'histories', 'configurations'],
  'every strain, stress and noise value, every material parameter, which updates fail, both dimensions, in memory and on disk',
  'a stress stored at the wrong time or component, or a failed path kept, silently corrupts all training data',
  [SY + 'gen_response_dataset.py', SY + 'gen_noisy_response_dataset.py', 'simulators/fetorch/material/material_su.py'],
  [('MaterialResponseDatasetGenerator', SY + 'gen_response_dataset.py'),
   ('NoisyMaterialResponseDatasetGenerator', SY + 'gen_noisy_response_dataset.py')],
  'Bounds: one or two samples of three to five times, up to two failing updates at free positions; strain and noise generators are arbitrary (P23).')

LU = 'simulators/links/utilities/'
GM = 'user_scripts/global_model_update/'
P('P30', 'Specimen meshes, supports and histories survive every file conversion',
  'Whatever the coordinates, prescribed displacements, supports and node results: the mesh, material phases and parameters, element type, supports '
  'and prescribed values written to a Links file are those of the patch; converting between Links, Abaqus and finder files '
  'keeps nodes, connectivities, element and integration type, prescribed degrees of freedom and values; node results become displacement, '
  'reaction and boundary label histories of the right node and component in numeric order of time; reactions are summed over the boundary '
  'sets; relabelling changes labels only; symmetry planes of tensile specimens are supported in their normal direction and the top is '
  'moved; removing elements keeps geometry, phases and displacements of the rest and never a boundary node; inconsistent meshes are refused.',
  ['inputs', 'configurations'],
  'every coordinate, displacement, reaction, label and material parameter; which degrees of freedom are prescribed; file order of times; removed elements',
  'a column or node off by one, or times sorted as text, gives a plausible specimen with the wrong physics',
  ['simulators/links/links.py', LU + 'links_dat_to_inp.py', LU + 'links_data_to_adimu.py', LU + 'links_nodedata_to_csv.py',
   LU + 'links_specimen_dirichlet.py', LU + 'links_out_to_dataset.py', 'simulators/links/models/links_lou.py',
   GM + 'material_finder/gen_specimen_data.py', GM + 'utilities/process_specimen_data.py'],
  [('LinksSimulator', 'simulators/links/links.py'), ('gen_adimu_data_from_links', LU + 'links_data_to_adimu.py'),
   ('get_specimen_mesh_from_inp_file, get_specimen_numerical_data', GM + 'material_finder/gen_specimen_data.py'),
   ('build_dirichlet_sets_reaction_history', GM + 'utilities/process_specimen_data.py')],
  'Bounds: meshes of one to four elements, two to four times (thorough: twelve); a free number is written as a unique signed numeral and '
  'read back as itself; accuracy of the files 1e-3; the Links solver is not run.')

NZ = 'miscellaneous/noisy_data/'
P('P32', 'Noise and denoising change only the displacements, and results keep their place',
  'Whatever the specimen files and random draws, injecting noise writes one new file per time in which each displacement of all but the '
  'first time (in numeric order) received its own draw with the requested distribution, and coordinates, reactions and nodes are unchanged; denoising '
  'filters every displacement component of every node along time on its own, in numeric order, as often as asked, with the first time at rest. Original files are '
  'never changed, files of other form are ignored or refused. Creating a result directory empties an existing one only when asked and otherwise uses '
  'the next free name, as do new files; searching a file returns a match of the first pattern that has one.',
  ['inputs', 'histories', 'configurations'],
  'every coordinate, displacement, reaction and draw, file order of times, which directories and files exist',
  'noise on the wrong column or a history filtered in text order looks plausible; a wrongly emptied directory loses results',
  [NZ + 'inject_disp_noise_csv.py', NZ + 'denoise_disp_noise_csv.py', 'ioput/iostandard.py'],
  [('inject_displacements_noise', NZ + 'inject_disp_noise_csv.py'), ('denoise_displacements_noise', NZ + 'denoise_disp_noise_csv.py'),
   ('make_directory', 'ioput/iostandard.py')],
  'Bounds: up to three nodes and four times, up to three existing directories; filters: moving average of window three or an arbitrary linear filter.')
