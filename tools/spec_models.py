prop("P15", "GMM training: one class is fitted by expectation-maximisation",
     "With one gaussian, training a class gives the mean and covariance (full or diagonal) of all frames of its phrases, each variance increased by the larger of the absolute regularisation and the relative one times the standard deviation, and a mixture coefficient of 1. With several gaussians, each iteration replaces the coefficients, means and covariances by those weighted by each gaussian's share of each frame under the previous mixture. Frames of other classes have no influence.",
     ["inputs", "configurations"], "every frame value and regularisation in the stated ranges; every state of the mixture before an iteration",
     "tests train on one recorded data set and never compare a trained value with the data",
     ["src/models/gmm/xmmGmmSingleClass.cpp", C + "model/xmmModelSingleClass.hpp", C + "model/xmmModel.hpp", C + "distributions/xmmGaussianDistribution.cpp"],
     ["E and M step on all phrases of the class", "regularisation added after each update", "training on the subset of the label"],
     "up to 2 phrases of 3 frames, up to 2 gaussians, dimension up to 2; reals")
prop("P16", "GMM prediction: likelihoods, window and regression follow the mixture",
     "For an observation, a class of a GMM reports the weighted sum of its gaussians' likelihoods and each gaussian's share of it; the model reports for each class its likelihood, the mean log-likelihood over the latest frames of its window and their normalised values, and as likeliest the class with the highest smoothed likelihood. In regression each class predicts the mean, weighted by these shares, of its gaussians' conditional means, with the covariance of that combination, and the model reports the prediction of its likeliest class or the classes' predictions weighted by normalised smoothed likelihood. This holds also when classes have different covariance modes.",
     ["inputs", "histories"], "every mean, covariance, coefficient and observation in the stated ranges, every class and mixture size within the bounds",
     "tests check that the likeliest class of one recorded data set is plausible; they never compare a value with the mixture it stands for",
     [C + "model/xmmModelSingleClass.hpp", C + "model/xmmModel.hpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/gmm/xmmGmm.cpp", C + "common/xmmCircularbuffer.hpp"],
     ["likelihood buffer per class", "shares of the gaussians reused by the regression", "output covariance sized by mode"],
     "up to 3 classes of 2 gaussians, dimension up to 2 (1 input and 1 output); reals")
prop("P17", "HMM training: one iteration is a Baum-Welch re-estimation",
     "From any state of a class, one training iteration gives each gaussian the mean, covariance (plus regularisation) and coefficient of the frames weighted by the probability of the state and gaussian given the whole phrase, summed over all phrases; and gives the transitions and priors the expected shares of moves and starts, for left-right and ergodic topologies. Priors and transitions out of each state sum to 1 at the end of training. The log-likelihood reported for the iteration is that of the phrases under the previous state.",
     ["inputs", "histories"], "every transition, prior, coefficient, mean and covariance before the iteration, within the stated ranges",
     "tests train on recorded gestures and only compare the likeliest class; a wrong re-estimation still converges to something plausible",
     ["src/models/hmm/xmmHmmSingleClass.cpp", "src/models/hmm/xmmHmmSingleClass.hpp", C + "model/xmmModelSingleClass.hpp"],
     ["scaled forward and backward recursions", "banded left-right transitions", "sequences of several phrases concatenated"],
     "up to 3 states, 2 gaussians, dimension 2, 2 phrases of 4 frames; fixed frames; the last row of a non-hierarchical left-right class is outside the claim; reals")
prop("P18", "HMM forward algorithm: filtering, progress and regression of each class",
     "A class of a non-hierarchical HMM holds, after each observation, the probability of each state given all observations since reset, computed from its prior, transition and observation probabilities, and reports the likelihood of the observation given the past, its mean logarithm over the window, the likeliest state and a progress that is the normalised centroid of the probabilities of the states around it. In regression it predicts the mean of its states' predictions weighted by these probabilities, over that same window of states. The model's likelihoods, likeliest class and output combine its classes as for a GMM, and reset starts afresh.",
     ["inputs", "histories"], "every prior, transition and observation parameter, and every sequence of observations within the bounds",
     "tests only compare the likeliest class on recorded gestures; a wrong state probability still gives a plausible class",
     ["src/models/hmm/xmmHmmSingleClass.cpp", "src/models/hmm/xmmHierarchicalHmm.cpp", C + "model/xmmModelSingleClass.hpp"],
     ["banded left-right transitions", "normalisation of the forward variable", "window of states around the likeliest one"],
     "up to 2 classes of 3 states (4 thorough), 3 observations; reals, probabilities in [1/16, 1]")
prop("P19", "Hierarchical HMM: forward algorithm over classes, exits, results",
     "A hierarchical HMM holds for each class the joint probability of its states and of staying in the class, leaving it for another class or ending, given all observations since reset, computed from the priors, transitions and exit probabilities of both levels; these probabilities sum to 1 over all classes. Likelihoods, exit likelihoods, normalised likelihoods, likeliest class, progress and regression of each class and of the model are derived from them. After training the class level is uniform with the default exits, exit points can be set on states that exist and no others, and reset makes the next observation the first one.",
     ["inputs", "histories", "configurations"], "every prior, transition, exit and exit-transition probability, gaussian and observation in the stated ranges, every sequence of observations within the bounds",
     "tests of the hierarchical HMM compare the likeliest class on recorded gestures only",
     ["src/models/hmm/xmmHierarchicalHmm.cpp", "src/models/hmm/xmmHierarchicalHmm.hpp", "src/models/hmm/xmmHmmSingleClass.cpp"],
     ["three forward variables per class", "frontier variables computed before the update of the classes", "normalisation over all classes"],
     "up to 3 classes of 3 states, 3 observations; reals; no exit on the first state of a left-right class")
prop("P20", "Training: classes, failures, events and stop rule",
     "Training gives exactly one class per label whose phrases can be fitted, each depending only on its own phrases and parameters; a class that cannot be fitted is reported by an Error event and removed, unknown labels and sets of other dimensions are refused without change. Listeners get, per class, one Run event per iteration with its count, likelihood and progression, then Done or Error, and one Alldone at the end. Training stops at the minimum number of iterations and percentage of change, at the maximum if that is larger, and after 1000 iterations in any case.",
     ["histories", "inputs"], "every sequence of operations within the bounds, every sequence of likelihoods for the stop rule",
     "tests train once on recorded data with the default stop rule and never look at events, failures or retraining",
     [C + "model/xmmModel.hpp", C + "model/xmmModelSingleClass.hpp", C + "model/xmmModelSingleClass.cpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/hmm/xmmHmmSingleClass.cpp"],
     ["training loop and stop rule", "join of the training of each class", "removal of failed classes"],
     "synchronous training; up to 3 labels; up to 4 likelihoods symbolic, limit of 1000 with a constant change")
prop("P21", "Models survive JSON: a restored model recognises alike",
     "Writing a trained or configured GMM or HMM to JSON and reading it back, by constructor or into any other model, gives a model with the same shared parameters, configuration (including the parameters of single classes), classes and values of every class. Both then give the same results on the same observations.",
     ["inputs", "configurations"], "every value of every parameter of the classes and of the configuration in the stated ranges",
     "tests compare a few fields of one trained model after a round trip",
     [C + "model/xmmModel.hpp", C + "model/xmmModelConfiguration.hpp", C + "model/xmmModelSingleClass.cpp", C + "model/xmmModelSharedParameters.cpp", "src/models/gmm/xmmGmm.cpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/hmm/xmmHierarchicalHmm.cpp", "src/models/hmm/xmmHmmSingleClass.cpp"],
     ["toJson/fromJson of models and classes", "hierarchical transitions", "reset after reading"],
     "up to 2 classes of 2 gaussians or states; the text form of JSON is P24; reals")
prop("P25", "Copies of models are complete and independent",
     "A copied or assigned GMM or HMM has the same parameters, configuration and classes as its source and recognises alike, and no later operation on one (training, removal, configuration, filtering, destruction) changes the other. Copies can be trained again and notify their own listeners, not those of the source.",
     ["histories", "inputs"], "every parameter value, every operation of the list on either side",
     "tests copy a trained model and compare a few fields; they do not use the copy after the source has changed or gone",
     [C + "model/xmmModel.hpp", C + "model/xmmModelSingleClass.cpp", "src/models/gmm/xmmGmm.cpp", "src/models/hmm/xmmHierarchicalHmm.cpp", "src/models/gmm/xmmGmmSingleClass.cpp", "src/models/hmm/xmmHmmSingleClass.cpp"],
     ["shared parameters owned by each model", "listeners of the classes", "copy constructors and assignments"],
     "up to 2 classes of 2 gaussians or states; reals")
prop("P22", "KMeans: iterations, stop rule, closest centre",
     "Training starts from centres drawn within the standard deviation of each dimension, or from consecutive parts of the first phrase, and each iteration moves every centre to the mean of all frames closest to it, until the centres no longer move by the relative distance threshold or the maximum number of iterations is reached. An observation is assigned to the closest centre, with its distance to each trained centre. Changing the configuration has no effect on recognition before the next training, and copies recognise alike.",
     ["inputs", "histories", "configurations"], "every frame or initial centre, every centre and observation in the stated ranges",
     "no test uses KMeans",
     ["src/models/kmeans/xmmKMeans.cpp", "src/models/kmeans/xmmKMeansParameters.cpp"],
     ["assignment of frames to the previous centres", "threshold on the largest move", "number of centres fixed by the training"],
     "up to 3 clusters, 4 frames, dimension 2, 3 iterations; a cluster that loses all its frames ends the claim; reals")
prop("P27", "Configuration: valid parameters, class overrides, used when training",
     "Shared and class parameters accept exactly the values within their documented limits; the input is always a proper part of the dimensions of a bimodal model and empty otherwise, and there is one column name per dimension. A configuration gives a class the default parameters until it is accessed by its label, then its own until reset; copies, assignments and JSON round trips carry all of it exactly and are independent of the source. Each class is trained with its own parameters or the defaults of that moment, keeps them until trained again, and shares dimensions, column names and stop rule with its model.",
     ["histories", "configurations", "inputs"], "every history of changes within the bounds and every value of every parameter in the stated ranges",
     "tests set a handful of parameters once and read them back",
     [C + "model/xmmModelConfiguration.hpp", C + "model/xmmModelSharedParameters.cpp", "src/models/gmm/xmmGmmParameters.cpp", "src/models/hmm/xmmHmmParameters.cpp", "src/models/kmeans/xmmKMeansParameters.cpp", C + "model/xmmModel.hpp"],
     ["limits of dependent attributes updated on change", "class parameters created from the defaults on first access", "parameters handed to a class when its training starts"],
     "up to 3 changes before and 2 after a copy; 2 labels; dimension up to 4; exact")
