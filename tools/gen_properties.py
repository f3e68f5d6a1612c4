import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
ATTR="src/core/common/xmmAttribute.hpp"; ATTRC="src/core/common/xmmAttribute.cpp"
PH="src/core/trainingset/xmmPhrase.cpp"; TS="src/core/trainingset/xmmTrainingSet.cpp"
GD="src/core/distributions/xmmGaussianDistribution.cpp"; GDH="src/core/distributions/xmmGaussianDistribution.hpp"
SP="src/core/model/xmmModelSharedParameters.cpp"; CF="src/core/model/xmmModelConfiguration.hpp"
SC="src/core/model/xmmModelSingleClass.cpp"; MO="src/core/model/xmmModel.hpp"
GS="src/models/gmm/xmmGmmSingleClass.cpp"; GM="src/models/gmm/xmmGmm.cpp"; GP="src/models/gmm/xmmGmmParameters.cpp"
HS="src/models/hmm/xmmHmmSingleClass.cpp"; HM="src/models/hmm/xmmHierarchicalHmm.cpp"; HP="src/models/hmm/xmmHmmParameters.cpp"
KM="src/models/kmeans/xmmKMeans.cpp"; KP="src/models/kmeans/xmmKMeansParameters.cpp"
JS="src/core/common/xmmJson.cpp"; JH="src/core/common/xmmJson.hpp"; EV="src/core/common/xmmEvents.hpp"
CB="src/core/common/xmmCircularbuffer.hpp"; MX="src/core/common/xmmMatrix.hpp"

p("C01","Attributes never hold a value outside their declared limits",
  "Setting a parameter to a value below its minimum, above its maximum, or not comparable with them (NaN), or giving a sized list of the wrong size, is rejected with an exception that leaves the stored value and its change flag untouched and calls no listener. Setting an admissible value always succeeds and stores exactly that value before the listener is called, and a silent set calls no listener. Element access to a list parameter outside its declared size is rejected with an exception.",
  ["inputs"],"for every numeric type of attribute, every value, every pair of limits (including values equal to a limit and NaN), every list size",
  "Tests set a few in-range values; the rejecting branches, the boundary values and the order check/store/notify are never exercised.",
  [ATTR,ATTRC],[("range check per type",ATTRC),("check-store-notify order in set()",ATTR)],
  [("value_/limit_min_/limit_max_","stored value and limits",ATTR)],["Attribute::set","Attribute::at"])
p("C02","Enumerated options accept every declared choice and nothing else",
  "A parameter whose type is an enumeration accepts, by default, each declared choice and rejects any other numeric value. Reading such a parameter from a saved document yields the choice that was written.",
  ["inputs","configurations"],"for every enumerated parameter type and every integer that may be found in a document",
  "Tests use one or two choices; that the admitted range covers exactly the declared choices concerns values no test writes.",
  [GD,HP,ATTR],[("enum limit specialisations",GD),("enum limit specialisations",HP)])
p("C03","The input dimension always stays below the total dimension",
  "In every phrase, training set, shared-parameters object and distribution, whenever the total dimension is set or the modality changes, any input dimension equal to or above the total dimension is rejected from then on and the current input dimension itself stays below it. A bimodal object never admits a total dimension below two; bimodal phrases, training sets and shared parameters never admit an input dimension of zero. Admissible changes of the total dimension or the modality are accepted.",
  ["inputs","histories"],"for every sequence of dimension, input-dimension and modality changes on each of the four kinds of objects, by setters, constructors or loading",
  "Tests use one fixed dimension/input-dimension pair; the limits that must follow each change are spread over four classes and several constructors.",
  [PH,TS,SP,GD],[("dimension change handlers raise/lower the input-dimension limit",PH),("same",TS),("same",SP),("same",GD)])
p("C04","A parameter change is delivered to its own object, and only to it",
  "For every object that reacts to changes of its parameters, a change made through a parameter of that object triggers that object's reaction, however the object came to be (constructed, copied, assigned, loaded). Copying or assigning a parameter never makes it notify the object it was copied from.",
  ["histories"],"for every constructor, copy and assignment of every class owning reacting parameters, and every later change",
  "Tests change parameters of freshly constructed objects only; wrong or dangling listeners appear after copy/assign/load sequences.",
  [ATTR,PH,TS,GD,SP,GP,HP,KP],[("listener registration in constructors and assignments",PH),("attribute copy drops the listener",ATTR)],
  [("callback_","listener of an attribute",ATTR)])
p("C05","Listeners receive each event once and never after they are gone",
  "Sending an event calls each currently registered listener exactly once with that event and calls nobody else; removing a listener stops delivery to it. A training set listens to the label changes of every phrase it holds, whichever operation added the phrase, and stops listening when the phrase leaves the set or the set is destroyed.",
  ["histories"],"for every sequence of listener registration/removal, phrase insertion/removal, set copy/assignment/destruction",
  "No test registers and removes listeners or lets a phrase outlive its set.",
  [EV,TS],[("listener map",EV),("add/remove listener on every insertion/removal of a phrase",TS)])
p("C06","Phrase operations are refused outside their memory mode and modality",
  "Recording, clearing and their per-modality variants are refused on phrases with shared memory; connecting and disconnecting are refused on phrases owning their memory; single-array operations are refused on bimodal phrases and per-modality ones on unimodal phrases. A refused operation throws and leaves the phrase exactly as it was; an observation whose size does not match the recorded dimension is refused likewise.",
  ["inputs","configurations"],"for each of the four memory-mode/modality combinations, each operation, and each observation size",
  "Tests cover the own-memory modes and a few of the refusals; 'state unchanged' and the full operation table are not enumerated.",
  [PH],[("mode guards at the head of each operation",PH)],[("own_memory_, bimodal_","modes of the phrase","src/core/trainingset/xmmPhrase.hpp")])
p("C07","Phrase data access is in bounds, addresses the right frame, or throws",
  "Reading a frame index or a dimension outside the phrase throws, and every index inside succeeds. A successful access addresses exactly the requested frame and dimension of the modality concerned: dimensions below the input dimension come from the input array, the others from the output array. Rescaling touches each stored value of each frame exactly at its own dimension.",
  ["inputs"],"for every phrase length (including different input and output lengths), dimension, input dimension, index and dimension argument",
  "Tests read back a handful of indices in one geometry; off-by-one limits and wrong strides appear in other geometries.",
  [PH],[("bounds checks and frame addressing",PH)],None,["Phrase::getValue","Phrase::getPointer*","Phrase::rescale"])
p("C08","Recording appends one frame inside allocated storage, keeping earlier ones",
  "Each successful recording writes exactly one frame right after the last one of the modality concerned, inside storage that was grown beforehand if it was full, and increases exactly that modality's length by one. Growing the storage preserves all frames already recorded; the length of a bimodal phrase is always the shorter of its two modalities. Clearing empties the phrase; clearing one modality of a bimodal phrase keeps the frames of the other.",
  ["histories"],"for every sequence of record, record-input, record-output, clear, clear-input, clear-output calls of any length",
  "Tests record fewer frames than one allocation block or only synchronously; growth and asynchronous recording are history dependent.",
  [PH,"src/core/trainingset/xmmPhrase.hpp"],[("capacity test before write",PH),("block reallocation","src/core/trainingset/xmmPhrase.hpp")],
  [("length_/input_length_/output_length_/max_length_","frames used and allocated","src/core/trainingset/xmmPhrase.hpp")])
p("C09","A phrase frees exactly its own buffers and never user memory",
  "A phrase in shared-memory mode never frees, writes to, or reallocates the arrays it is connected to on construction, copy, assignment, parameter change or destruction. A phrase owning its memory releases each buffer exactly once, with the form matching its allocation, and no pointer is ever used before it is set.",
  ["histories","configurations"],"for every sequence of construction, copy, assignment, connection, dimension change and destruction in every memory mode/modality combination",
  "Leaks, double frees and wrong frees do not fail a test, and shared-memory copies/assignments are not exercised.",
  [PH],[("ownership test around delete[] / new[]",PH)],[("data_","buffer pointers","src/core/trainingset/xmmPhrase.hpp")])
p("C10","Copies and assignments carry over the complete state",
  "Copy construction and assignment of phrases, training sets, distributions, parameter sets, configurations, per-class models and complete models transfer every parameter and every trained quantity of the source. Nothing the saved form of the object contains may be lost or left at its default.",
  ["inputs","histories"],"for every copyable class, every field, every configuration of the source",
  "Tests compare a few copied objects with default configuration; a field forgotten in one of some thirty hand-written copy operations is invisible unless it is non-default and observed.",
  [PH,TS,GD,SP,GP,HP,KP,CF,SC,GS,HS,KM,MO,GM,HM],[("hand-written copy constructors and assignments","all classes")])
p("C11","Copies share no mutable state with their source",
  "After copying or assigning a phrase owning its memory, a training set, or a complete model, no later change to the source is visible in the copy and vice versa. In particular the per-class models of a copied model follow the copy's own shared parameters, and a copied training set holds its own phrases.",
  ["histories"],"for every later change to source or copy",
  "No test mutates a source after copying; sharing shows only then.",
  [PH,TS,MO,GM,HM,KM],[("deep copies of phrases",TS),("per-model shared parameter object",MO)])
p("C12","Labels and class subsets always mirror the phrases of a training set",
  "After every operation on a training set (adding in any form, replacing, removing, removing a class, clearing, copying, assigning, loading, or relabelling a contained phrase), its set of labels is exactly the set of labels of its phrases. For each label the class subset contains exactly the phrases with that label, under the same indices, and has the set's dimensions and column names.",
  ["histories"],"for every sequence of public operations",
  "Tests follow two or three fixed sequences.",
  [TS],[("rebuild of labels and subsets after each change",TS)],[("labels_, sub_training_sets_","derived indexes","src/core/trainingset/xmmTrainingSet.hpp")])
p("C13","Training-set dimensions and column names reach all its phrases and subsets",
  "Setting the dimension, input dimension or column names of a training set applies the same setting to every phrase it holds and to every class subset. A phrase created through the set takes the set's memory mode, modality, dimensions and column names and the requested label.",
  ["inputs","histories"],"for every set content and every setting",
  "Tests set dimensions before adding phrases, so propagation to existing phrases and subsets is unseen.",
  [TS],[("attribute-change handler of the training set",TS)])
p("C14","Everything saved to a document is read back into the same quantity",
  "For each serialisable object, loading a document produced by saving restores each saved quantity from the entry it was saved under, with the same element count and under the same conditions, for every modality, covariance mode and topology. Every quantity that influences later behaviour and is not derived from others is saved.",
  ["inputs","configurations"],"for every serialisable class and every configuration of the object saved",
  "Tests round-trip one configuration per class (full covariance, default topology) and compare saved forms, so an entry missing from both sides or handled differently in another configuration is not seen.",
  [PH,TS,GD,SP,CF,GP,HP,GS,HS,MO,HM,GM],[("toJson / fromJson / Json constructors","all serialisable classes")])
p("C15","A failed load leaves the object unchanged",
  "When loading an object from a document fails at any point, the error is reported and the object keeps exactly the state it had before the call.",
  ["inputs","fault_sequences"],"for every document and every point at which reading it can fail",
  "Tests load only well-formed documents.",
  [PH,TS,GD,SP,CF,GP,HP,GS,HS,MO,GM,HM],[("load into a temporary, then assign","fromJson of each class")])
p("C16","Malformed arrays in documents are rejected before they are used",
  "Reading a numeric or vector array from a document checks that the entry is an array of exactly the expected length and throws a format error otherwise, before any element is stored. No element count or index taken from a document is used to address memory without being checked against the size of the destination, and reported errors carry a readable message.",
  ["inputs"],"for every document",
  "Tests load only well-formed documents.",
  [JS,JH,PH,TS],[("size and type checks in array readers",JS)])
p("C17","Trained-model queries are refused while training is running",
  "While a model or one of its classes is training, filtering, resetting, saving, loading, copying and assigning it are refused with an exception before anything is read or changed. Starting, clearing or removing classes first stops the running training.",
  ["schedules","histories"],"for every operation issued at any moment of a training",
  "Single-threaded tests never overlap an operation with a training.",
  [SC,MO,GM,HM,GS,HS],[("training guards at the head of each operation",SC)],[("is_training_","training flag",SC)])
p("C18","No lock survives an operation, whichever way it ends",
  "Every lock acquired by training, cancellation or event delivery is released on every way out: normal completion, cancellation, numerical failure, or an exception raised by a user listener or by an allocation. No lock is released twice or acquired again while held.",
  ["schedules","fault_sequences"],"for every path through training and event delivery, including exceptional exits",
  "A leaked lock only shows on the next training after a failing or cancelled one.",
  [SC,MO],[("training and event mutexes",SC)],[("training_mutex_, event_mutex_","locks",SC)])
p("C19","Each class training ends with exactly one final status",
  "Each training of a class reports exactly one final status (done, error or cancelled) to its listeners, as its last event, whatever happens; progress is reported as running before that. When the final status is reported the class is marked as no longer training and its status equals the reported one.",
  ["schedules","fault_sequences"],"for every path through a class training, including empty data, numerical failure and cancellation",
  "Tests train successfully and look at the result only; failing and cancelled runs and the event sequence are not observed.",
  [SC,MO],[("status update and notification at each exit of train()",SC)],[("training_status, is_training_","status of a class",SC)])
p("C20","Iterative training obeys its iteration bounds and convergence criterion",
  "A class training never stops for convergence before the minimum number of iterations. When a maximum above the minimum is set, it runs for exactly that many iterations; when the maximum is below the minimum (not in use) it stops at the first iteration from the minimum on at which the relative change of the log-likelihood is within the threshold. A safety limit, not below 1000 iterations, ends every training. Each iteration updates the model from the data exactly once, and k-means clustering likewise ends within its maximum number of iterations.",
  ["inputs","configurations"],"for every ordering of iteration count, minimum, maximum, log-likelihood change and threshold",
  "Tests run one default setting where convergence comes first.",
  [SC,KM],[("convergence test of the training loop",SC)])
p("C21","Cancellation stops each class training within one iteration",
  "A cancellation requested at any moment makes each running class training stop before its next iteration with the final status 'cancelled'. The request concerns only the running training: a training started afterwards is not affected by it.",
  ["schedules"],"for every moment at which the cancellation is requested",
  "No reliable test cancels a training.",
  [SC,MO],[("cancellation poll inside the training loop",SC)],[("cancel_training_","cancellation request",SC)])
p("C22","Training leaves one class per trained label, and only classes that succeeded",
  "After training a model, it contains the classes of the training set that were trained successfully and none that failed or was cancelled, and no training thread is left running. Training one label only leaves the other classes as they were; labels or sets without data add no class.",
  ["schedules","histories","configurations"],"for every training set, label, multithreading mode and outcome of each class training",
  "Tests train successfully in the default mode; failure and cancellation are not produced.",
  [MO,HM],[("joining of training threads and removal of failed classes",MO)],[("models, training_threads_","classes and running threads",MO)])
p("C23","Class trainings are independent of each other and leave their data untouched",
  "Training one class changes only the model of that class: it writes neither another class, nor the shared parameters or configuration, nor any global state, nor the training data. Parallel, background and sequential training give each class the same data, so the result does not depend on the multithreading mode.",
  ["schedules","configurations"],"for all interleavings of the class trainings, and every multithreading mode",
  "Interleavings cannot be enumerated by tests; the multithreading tests are known to be racy and are excluded.",
  [SC,MO,GS,HS],[("per-class training reads shared data, writes own state only",SC)])
p("C24","Recognition never changes the trained model",
  "Filtering any sequence of observations, and resetting, modify only running recognition state and results: every quantity that is saved with the model, every parameter and every training datum stays as trained. Only copies' or the model's own running state is written.",
  ["histories","inputs"],"for every sequence of reset and filter calls on every kind of model",
  "Tests never save a model before and after filtering.",
  [GM,HM,GS,HS,GD,KM],[("filter and reset write results and running state only",HS)])
p("C25","Resetting restarts recognition from scratch",
  "After a reset, the results of filtering a sequence depend only on the trained model and that sequence, not on anything filtered before. Result lists have one entry per class after a reset.",
  ["histories"],"for every earlier history of filtering, for every kind of model",
  "No test filters, resets and filters again.",
  [GM,HM,GS,HS,SC,KM],[("reset of likelihood buffers, forward variables and result arrays",HS)],
  [("likelihood_buffer_, alpha, forward_initialized_","running state",HS)])
p("C26","Trained-quantity arrays are always addressed inside their size",
  "Training, filtering, loading and copying address every mean, covariance, inverse, transition, prior, result and work array inside its allocated size, for every dimension, input dimension, number of components or states, covariance mode, topology and modality. Arrays are given the size their use requires before they are used.",
  ["inputs","configurations"],"for every dimension, input dimension, number of Gaussians, number of states, number of clusters, covariance mode, transition mode and modality",
  "Tests run two or three geometries without bounds checking; an index valid in one geometry may be out of range in another.",
  [GD,GS,HS,GM,HM,KM],[("array allocation and loop bounds",GD)])
p("C27","Likelihoods are positive, finite numbers",
  "Every likelihood returned by a distribution is strictly positive and finite, whatever the observation, even where the density underflows or the computation overflows. Logarithms of likelihoods are therefore always defined.",
  ["inputs"],"for every observation, dimension, covariance mode and modality",
  "Tests evaluate a few ordinary observations.",
  [GD],[("floor applied to each returned density",GD)])
p("C28","Inverse covariances and determinants are up to date whenever used",
  "Whenever training, initialisation, regularisation, conversion of the covariance mode, or loading changes a covariance, the inverse covariance, determinants and conditional output covariance derived from it are recomputed before the operation returns. Covariances are regularised with the configured offset at every re-estimation, before they are inverted.",
  ["histories","configurations"],"for every path through training, mode conversion and loading",
  "Staleness shows as slightly wrong likelihoods that no test compares with an independent value.",
  [GD,GS,HS],[("recomputation after each change of covariance",GS)],[("inverse_covariance_, covariance_determinant_, output_covariance","derived quantities",GDH)])
p("C29","Bimodal-only predictions are refused on unimodal models and vice versa",
  "Input-only likelihoods, joint input/output likelihoods and regression are refused with an exception on unimodal distributions and per-class models, before any data are read. On bimodal models filtering uses only the input dimensions of the observation and produces an output of exactly the output dimension, with variances of a matching size in either covariance mode.",
  ["inputs","configurations"],"for every modality, covariance mode and prediction operation",
  "Tests never call a bimodal operation on a unimodal model and read the output in one mode.",
  [GD,GS,HS,GM,HM],[("modality guards of the prediction functions",GD)])
p("C30","Unknown classes, components and states are rejected",
  "Asking a model for a class, a component or a state that does not exist, or adding an exit point beyond the last state, throws an out-of-range error and changes nothing. Asking for one that exists never throws.",
  ["inputs"],"for every label and index, and every set of classes",
  "Tests use existing labels and valid indices.",
  [MO,GM,HM,GS,HS,GD,KM],[("bounds checks of indexed operations",MO)])
p("C31","Normalised quantities are divided by their own sum, never by zero",
  "Mixture weights, prior, transition and forward probabilities and class-normalised likelihoods are each divided by the sum of exactly the entries being normalised. Whenever that sum can be zero, the division is skipped or replaced by a defined fallback.",
  ["inputs"],"for every vector of non-negative weights, including all zeros",
  "Degenerate (all-zero) weights do not occur with the test data.",
  [GS,HS,GM,HM,KM],[("normalisation helpers",GS)])
p("C32","Adding and removing classes keeps a hierarchical model consistent",
  "Whenever a class is added to, removed from or cleared in a hierarchical model, its class-level prior, transition and exit parameters get one entry per class in class order; the model then recognises with the remaining classes. Removing a class removes it and only it.",
  ["histories"],"for every sequence of training, retraining of one label, removal, clearing and loading",
  "Tests train once and never remove a class.",
  [HM,MO],[("update of class-level parameters on every change of the class list",HM)])
p("C33","Each class is trained with its own parameters, or else the defaults",
  "A class uses the class-specific parameters configured for its label if there are any, and the default parameters otherwise; changing the defaults does not override a class-specific configuration. Saving, copying and assigning a configuration keep both.",
  ["configurations"],"for every label and every set of class-specific configurations",
  "One test configures one class-specific parameter.",
  [CF,MO],[("per-label parameter lookup",CF)])
p("C34","Ring buffers keep exactly the latest values",
  "A ring buffer of positive length n holds exactly the latest min(n, pushed) values since it was last cleared; reading returns one of them for every index below that number and throws for any other index, and the mean is that of exactly these values. After a resize it never reports more values than are stored, and it stays inside its storage for any sequence of push, resize and clear. Filtering a class adds one likelihood per observation to it.",
  ["histories"],"for every buffer length and every sequence of operations",
  "There is no test for the ring buffer.",
  [CB],[("wrap-around index arithmetic",CB)])
p("C35","Matrix storage is released once, and only when owned",
  "A matrix releases its storage exactly once, in the way it was obtained, and only if it owns it; every element access done by products, transposition, exchange and inversion lies inside the matrices involved. Incompatible shapes and singular matrices are reported by an exception without leaking intermediate results.",
  ["inputs","fault_sequences"],"for every shape and content, including singular matrices",
  "There is no test for the matrix class.",
  [MX],[("owned storage, shape checks",MX)])
p("C36","Changing the covariance mode keeps the variances",
  "Changing the covariance mode of a distribution from diagonal to full gives a covariance matrix with the same variances on its diagonal and no correlations; changing it from full to diagonal keeps the diagonal. Setting the mode it already has keeps the covariance, and no change of mode alters the mean.",
  ["inputs","histories"],"for every dimension, modality and sequence of mode changes",
  "Tests train in one mode and do not convert a trained distribution.",
  [GD],[("conversion of the covariance when the mode changes",GD)])
p("C37","Results report each class at its own position and name the best one",
  "After filtering, the reported likeliest class is the one with the greatest smoothed likelihood, the reported likeliest state of a Markov model the one with the greatest probability, and the reported likeliest cluster the one at the smallest distance; the training of k-means counts each frame for the nearest cluster. Class-level result arrays hold the values of each class at the position of that class, and regression with the likeliest-class estimator returns exactly the outputs of the class reported.",
  ["inputs","configurations"],"for every number of classes, states and clusters and every value of the likelihoods or distances, in every order",
  "Tests check the result for one trained model; ties, orders and the first element need specific values.",
  [GM,HM,KM],[("selection of the likeliest element",GM)])
p("C40","Each training iteration does not decrease the data likelihood",
  "Without regularisation, each iteration of training increases or keeps the log-likelihood of the training data.",
  ["inputs"],"for every data set and model size","Tests train on one data set and check nothing about the trajectory.",
  [GS,HS],[("EM re-estimation formulas",GS)])
p("C41","Saved numbers reload to identical values",
  "Saving and reloading a model through text reproduces every number exactly, so predictions of the reloaded model are identical.",
  ["inputs"],"for every finite value of every saved quantity","Tests compare after a round trip of one model.",
  [JS],[("number formatting of the JSON library","dependencies/jsoncpp")])
p("C42","Regression output is the conditional expectation of the joint density",
  "The predicted output is the conditional mean of the output given the input under the trained joint density, weighted over components, states and classes as configured.",
  ["inputs"],"for every model and input","No test has an independent oracle for the value.",
  [GD,GM,HM],[("regression formulas",GD)])
p("C43","Filtering works in bounded time and memory",
  "Filtering one observation takes time and memory bounded by the model size, independent of how many observations were filtered before.",
  ["histories"],"for every sequence of observations","Tests do not measure it.",
  [GM,HM],[("fixed-size running state",HM)])
p("C44","Concurrent cancellation, joining and destruction never deadlock or race",
  "Cancelling, joining, clearing or destroying a model while its trainings run in the background ends in bounded time, without deadlock, data race or use of destroyed objects.",
  ["schedules"],"for every interleaving of user calls with training threads","Interleavings cannot be enumerated by tests.",
  [MO,SC],[("flags and threads of a model",MO)])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
