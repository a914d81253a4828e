import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
LDA="src/ldaplusplus/LDA.cpp"; LDAH="include/ldaplusplus/LDA.hpp"; EV="src/ldaplusplus/events/Events.cpp"; EVH="include/ldaplusplus/events/Events.hpp"
EM="src/ldaplusplus/em/"; EU="src/ldaplusplus/e_step_utils.cpp"; UT="include/ldaplusplus/utils.hpp"; NP="include/ldaplusplus/NumpyFormat.hpp"
DOC="src/ldaplusplus/Document.cpp"; LB="src/ldaplusplus/LDABuilder.cpp"; LBH="include/ldaplusplus/LDABuilder.hpp"; GD="include/ldaplusplus/optimization/GradientDescent.hpp"
APP="src/applications/"
ES=[EM+x+"EStep.cpp" for x in("Unsupervised","Supervised","FastSupervised","MultinomialSupervised","CorrespondenceSupervised","SemiSupervised")]
MS=[EM+x+"MStep.cpp" for x in("Unsupervised","Supervised","FastSupervised","FastOnlineSupervised","MultinomialSupervised","CorrespondenceSupervised","SemiSupervised")]

p("C01","No data races between the inference workers and the calling thread",
"While worker threads are running, any memory that more than one thread can reach is either only read by all of them, or every access to it is made under one common lock. This covers the work and result queues, the event queue and listener list, the shared random generator, the model being trained and every piece of state an expectation step, corpus or utility keeps between documents.",
["schedules","configurations"],"every interleaving of any number of workers with the calling thread, every expectation/maximization step combination",
"The tests run a few tiny fits; a race shows itself only under a particular interleaving and usually yields a plausible number.",
[LDA,LDAH,EV,EVH,UT]+ES+[EU],[("queue mutexes held around every queue access",LDA),("dispatcher mutexes",EV),("mutex inside the shared PRNG",UT),("doc_e_step keeps all per-document state in locals","src/ldaplusplus/em")],
[("queue_in_/queue_out_","pending documents and finished results",LDAH),("events_/listeners_/deleted_listeners_","dispatcher state",EVH),("model_parameters_","the shared model",LDAH)])
p("C02","Each pass handles every document once and credits results to that document",
"A training pass or a transform hands every document of its corpus to the expectation step exactly once and consumes exactly as many results as there are documents. Each result is used together with the very document it was computed from: training updates the statistics with that document's own words and label, and transform returns it in that document's own column.",
["schedules","inputs","configurations"],"every corpus (including empty documents), any completion order of the workers, any number of workers",
"Tests use random data and check convergence, so a dropped, duplicated or mis-attributed document only shifts numbers slightly.",
[LDA,LDAH],[("work queue filled with one entry per index, popped once under the lock",LDA),("result queue carries (result, index)",LDA),("drain loop consumes corpus-size results",LDA)],
[("queue_in_","(corpus, index) jobs",LDAH),("queue_out_","(variational parameters, index) results",LDAH)],["LDA::partial_fit","LDA::transform"])
p("C03","Worker threads never outlive the training or transform call",
"Every thread started by a training pass or a transform has been joined by the time the call returns, whether it returns normally or by an exception thrown by a listener or a maximization step. No worker is detached, and all of the started workers are joined, not only some.",
["schedules","fault_sequences","configurations"],"every exit path of a pass, including exceptional ones, for any number of workers",
"Tests never throw from a listener and never inspect threads after a call.",
[LDA,LDAH],[("pool created and destroyed in the same call",LDA)],[("workers_","the thread pool",LDAH)],["LDA::partial_fit","LDA::transform"])
p("C04","A pass never deadlocks or misses a wake-up",
"The calling thread only sleeps for a result while re-checking, under the lock that protects the results, that none is available, and every worker that publishes a result does so under that same lock and then wakes the waiter. Locks are never acquired in conflicting orders or re-acquired while held, every lock taken is released on every path, and there is always at least one worker for a non-empty corpus.",
["schedules","configurations"],"every interleaving and every requested worker count, zero included",
"A lost wake-up or lock inversion needs a particular interleaving; tests would hang once in many runs.",
[LDA,EV,UT,LB],[("predicate wait on the result condition variable",LDA),("notify after publishing",LDA),("std::lock for the pair of dispatcher mutexes",EV)])
p("C05","Listeners get each event once, on the owner's thread, with no lock held",
"Every event dispatched to a model's dispatcher is delivered exactly once to every listener that is registered when it is delivered and has not been removed; queued events are delivered in the order in which they were dispatched, and events are neither lost nor repeated when they are dispatched while others are being delivered. Events raised on worker threads are never delivered there but queued for the thread that owns the dispatcher. Listeners are called with no internal lock held, so that they may add or remove listeners and dispatch events themselves.",
["schedules","histories"],"every sequence of add/remove/dispatch/process calls and every interleaving with workers",
"Tests attach a listener or two and never remove listeners, dispatch from inside a callback or race with workers.",
[EV,EVH,EM+"SemiSupervisedEStep.cpp"],[("queue swap in one critical section",EV),("delivery from snapshots",EV),("thread id comparison before delivering",EV)],
[("events_","queued events",EVH),("thread_id_","owning thread",EVH)],["EventListenerInterface::on_event"])
p("C06","One expectation event per document and one epoch event closing each pass",
"For every document it processes an expectation step raises exactly one expectation-progress event, whatever path it takes, and carries either the likelihood of that document or a not-a-number marker. A training pass runs the corpus-wide part of the expectation and maximization steps exactly once each, after every document has been accumulated and all workers have stopped, and then raises exactly one epoch event carrying the updated model; a transform raises no epoch event and runs no maximization.",
["inputs","configurations","histories"],"every document, every step type, every likelihood sampling outcome",
"Tests count nothing; the sampled branch and the empty-document branch are rarely taken.",
[LDA]+ES,[("one dispatch on each side of the sampling branch","src/ldaplusplus/em"),("e_step, m_step, epoch event after the pool is joined",LDA)],None,["ExpectationProgressEvent","EpochProgressEvent"])
p("C07","Inference never modifies the model; training never changes the topic prior",
"Computing the variational parameters of a document, transforming, scoring and predicting leave the model parameters exactly as they were. Training changes only the topic-word and supervised parameters: the Dirichlet prior over topics is never written after initialization, and purely unsupervised training never touches the supervised parameters.",
["inputs","histories","configurations"],"every document, corpus and step combination",
"Tests compare outputs, not whether the model object was changed behind the caller's back.",
[LDA,EU]+ES+MS,[("const references to the model in doc_e_step","src/ldaplusplus/em"),("only m_step paths write beta/eta","src/ldaplusplus/em")],
[("alpha, beta, eta","model parameters","include/ldaplusplus/Parameters.hpp")])
p("C08","Every model update uses exactly the statistics gathered since the last one",
"The batch maximization steps accumulate each document's contribution additively, use the accumulated statistics in the model update, and clear all of them afterwards, so that no document of an earlier pass leaks into a later one and none of the current pass is discarded before use. The mini-batch step performs an update exactly when a full mini-batch has been gathered and restarts its mini-batch count at each update.",
["inputs","histories"],"every sequence of passes with any corpora and mini-batch sizes",
"Tests run one maximization on one batch, or check only that the likelihood improves.",
MS,[("accumulate with += in doc_m_step","src/ldaplusplus/em"),("reset after use in m_step","src/ldaplusplus/em")],
[("b_, h_, docs_, expected_z_bar_, y_, docs_seen_so_far_","sufficient statistics","include/ldaplusplus/em")])
p("C09","Every hyper-parameter given to the builder reaches the role it names",
"Each value passed to the builder's configuration methods is the value the created model uses for exactly the role the parameter names: iteration limits bound their own loops, tolerances decide their own convergence test, likelihood percentage drives the sampling, seeds seed the generator, weights, penalties, momentum and learning rate enter their own update terms, and iteration and worker counts reach the model. No value is dropped, swapped with another or replaced by a constant.",
["configurations"],"every combination of builder arguments and step types",
"Tests use defaults or one setting and cannot see two swapped floating point arguments.",
[LB,LBH]+ES+MS,[("constructor parameter -> member -> use","src/ldaplusplus/em"),("argument order in builder factories",LB)])
p("C10","Every documented command line option takes effect on the setting it documents",
"For each console command, every option and argument in its usage text is read by that command and its value flows, unmodified, to the corresponding setting of the model, initialization, listener or file it documents; options of one name never feed another setting. No command reads an option that its usage text does not declare.",
["configurations"],"every option of every command of every console application",
"The applications have no tests at all.",
[APP+"lda.cpp",APP+"slda.cpp",APP+"fslda.cpp"],[("docopt lookup by option name",APP),("argument order of the builder calls",APP)])
p("C11","A model cannot be built without the parameters its steps need",
"Turning a builder into a model fails with an exception when the topics have not been initialized, or when a configured expectation or maximization step needs supervised parameters and these have not been initialized; it succeeds otherwise. Initializing the supervised parameters before the topics fails with an exception, and every supervised step selected through the builder is remembered as supervised, in whatever order the methods are called.",
["histories","configurations"],"every sequence of builder calls",
"Tests build a few valid models; refusals and re-configuration orders are not sampled.",
[LB,LBH],[("guards in the conversion operator",LBH),("requires-eta flags set after each set_*",LBH)],
[("e_requires_eta_, m_requires_eta_","whether a configured step is supervised",LBH)])
p("C12","Saved models and data sets are read back array by array in the order written",
"A model file contains the topic prior, the topic-word matrix and the supervised matrix, in that order, and loading assigns each array to the parameter it was written from. Data files are read as words first and labels second, every array read from a file is read from the same opened stream, and each loaded array is copied before the next one is read.",
["inputs","configurations"],"every model and data set",
"No test saves and loads a model; only single arrays are round-tripped.",
[APP+"lda_io.cpp",NP],[("three writes / three reads in the same order",APP+"lda_io.cpp")])
p("C13","The numpy writer and reader agree with each other and with the format",
"The header written names the element type and byte order actually written, the storage order flag and shape of the matrix, and is padded so that the data starts at a multiple of sixteen bytes with the header length stored little endian in two bytes. The reader takes each of these from where the writer puts it, rejects arrays of another element type, swaps bytes exactly when the file's byte order differs from the machine's, and places element (i,j) at (i,j) for both storage orders and all element types.",
["inputs","configurations"],"all element types, shapes, storage orders and byte orders",
"Tests round-trip a few matrices on a little endian machine; other byte orders, types and shapes are not reached.",
[NP],[("dtype table",NP),("header writer and fixed-offset parser",NP),("index mapping for fortran order",NP),("swap_endianess",NP)])
p("C14","File errors are reported, never silently accepted",
"Reading an array from a missing, truncated or malformed stream ends in an exception rather than in an array with made-up contents: every byte that is interpreted has been read, and the success of every read is checked before its data is used. Saving a model or an array to a path that cannot be written, or that fails while being written, also ends in an exception.",
["inputs","fault_sequences"],"every truncation point and every failing open, read or write",
"Tests only feed well formed in-memory streams.",
[NP,APP+"lda_io.cpp"],[("stream state checks after each read and write",NP)])
p("C15","Shuffling permutes documents and never separates words from labels",
"A corpus exposes each of its documents at exactly one position whatever shuffles have happened: positions map to documents through a permutation that starts as the identity and is only ever permuted. The words and the label returned for a position always belong to the same document, the class priors are the label frequencies among the labelled documents, and the caller's data is never modified.",
["histories","inputs"],"every corpus and every sequence of shuffles and look-ups",
"Tests shuffle one small corpus once.",
[DOC,"include/ldaplusplus/Document.hpp"],[("single index permutation used for both words and label",DOC),("iota + std::shuffle",DOC)],
[("indices_","position to document permutation","include/ldaplusplus/Document.hpp")])
p("C16","Documents without a label are never treated as members of a class",
"A document with a negative label is processed by the unsupervised expectation step and contributes only to the topic statistics; a document with a non-negative label always goes through the supervised steps. A negative label is never used to index class weights, class frequencies, supervised parameters or class priors.",
["inputs","configurations"],"every mix of labelled and unlabelled documents, including none or all labelled",
"Tests have no unlabelled documents.",
[EM+"SemiSupervisedEStep.cpp",EM+"SemiSupervisedMStep.cpp",DOC,APP+"utils.cpp"],[("class < 0 branch in both semi-supervised steps",EM),("guarded class counting",DOC)])
p("C17","All randomness comes from the given seeds",
"Every random choice in training, initialization and shuffling is drawn from a generator seeded with a caller-supplied (or fixed default) random state; none depends on time, a random device, addresses, thread identity or an unseeded global generator. Each documented random state reaches the generator of its component, and a generator is not re-seeded between draws.",
["configurations","histories"],"every random choice in the library and the applications",
"Two runs in one test binary can agree by accident; seeds are never varied.",
[EM+"AbstractEStep.cpp",UT,DOC,LB],[("seed passed to generator constructors","src/ldaplusplus")])
p("C18","Empty documents, unused topics and unseen words never poison the model",
"Whenever the library normalizes by a total that can be zero for legal input (a document without words, a topic no word is assigned to, a word no topic emits, a class without documents) the zero total is handled and no not-a-number reaches the model, the variational parameters or the returned scores. The same holds for the per-document word total: nothing is divided by, indexed with or looked up through a value that only exists for non-empty documents.",
["inputs"],"every word-count matrix, including all-zero columns and rows",
"Tests use dense random counts, so zero totals never occur.",
[UT,EU,LDA]+ES+MS,[("zero-guarded normalization helpers",UT),("explicit checks on totals","src/ldaplusplus/em")])
p("C19","The table-based exponential is in range and correct for every argument",
"The fast exponential never reads outside its table for any floating point argument, including zero, huge, infinite and not-a-number ones, and always terminates. The table holds the exponential sampled evenly over the unit interval, negative arguments give the reciprocal of the positive result, and every halving of the argument is undone by exactly one squaring of the result.",
["inputs"],"every float and double argument",
"A test can try a handful of arguments out of 2^64; the table has 1024 entries.",
[UT],[("range reduction to [0,1)",UT),("1024 entry table",UT)],[("exp_lut","table of exp over [0,1]",UT)])
p("C20","Every iterative loop is bounded by its configured limit",
"Each expectation step performs at most its configured number of iterations and leaves early only when its convergence test says so; the fixed point updates and the supervised maximization honour their own limits, and fitting runs exactly the configured number of passes. Every loop in the library makes progress on every iteration towards its exit condition.",
["inputs","configurations"],"every input and limit, zero included",
"Tests use converging inputs and generous limits.",
[LDA,GD]+ES+MS,[("counted loops","src/ldaplusplus/em"),("iteration count passed to the progress callback",GD)])
p("C21","A line search step is taken only if it decreases the objective enough",
"The backtracking line search moves the parameters only to a point at which it has evaluated the objective and found the sufficient decrease condition satisfied, moves against the search direction, and returns the objective value of exactly the point it leaves the parameters at. Gradient descent evaluates the gradient at the current parameters before each step and reports to its callback the value at the current parameters.",
["inputs"],"every objective, starting point and direction",
"Tests minimize one convex problem and check that the value went down.",
[GD],[("while-not-sufficient loop and final update with the accepted step",GD)])
p("C22","An event or object is only ever cast to the type it was created as",
"A listener interprets an event as a particular kind only after checking the identifier that kind, and no other, is constructed with. Variational parameters, documents and model parameters are cast only to types that every producer feeding that consumer creates.",
["configurations","histories"],"every event kind, listener, and pairing of steps the builder offers",
"An unchecked static cast usually works by accident in a test.",
["include/ldaplusplus/events/ProgressEvents.hpp",APP+"EpochProgress.cpp",APP+"ExpectationProgress.cpp",APP+"MaximizationProgress.cpp",APP+"SnapshotEvery.cpp",LDA]+ES+MS,[("event id string equals class",'include/ldaplusplus/events/ProgressEvents.hpp'),("static_pointer_cast sites","src/ldaplusplus")])
p("C23","The whole public API is available in single and double precision",
"Every public class template and function template whose implementation lives in a compiled source file is instantiated for both float and double, with every overload, so that a program using either precision links. The two precisions run the same algorithm: no intermediate of the double precision instantiation is narrowed to single precision or to an integer (the class priors of a document, whose interface is single precision, excepted).",
["programs","configurations"],"every user program using any public template with float or double",
"Tests link only against what they happen to use.",
["src/ldaplusplus","include/ldaplusplus"],[("explicit instantiation lists","src/ldaplusplus")])
p("C24","Matrix shapes agree for every number of topics, words, classes and documents",
"In every matrix expression, assignment, loop bound and subscript of the library the operands agree in what their rows and columns range over: topics, vocabulary words, classes or documents. Results have the documented orientation: topics by words, topics by classes, topics by documents, classes by documents.",
["inputs","configurations"],"every combination of topic, word, class and document counts",
"Tests with equal or small dimensions can pass with transposed or mismatched shapes, and release builds drop the run-time assertions.",
[LDA,EU,LB,UT]+ES+MS+["src/ldaplusplus/optimization"],[("expression shapes","src/ldaplusplus")])
p("C25","Console commands save the final trained model or result to the requested file",
"The training commands read the given data, fit, and only after fitting save that fitted model to the given model path; snapshots go to distinct numbered paths every N epochs with the model of that epoch. The transform command loads the given model and data and writes the transform of exactly that data with that model to the given output path.",
["configurations","inputs"],"every command of every console application",
"The applications have no tests.",
[APP+"lda.cpp",APP+"slda.cpp",APP+"fslda.cpp",APP+"SnapshotEvery.cpp",APP+"lda_io.cpp"],[("straight-line command bodies",APP)])
p("C26","Topic and assignment distributions are normalized along the right axis",
"After initialization and after every batch model update each topic's distribution over words sums to one (or is entirely zero when the topic received nothing), the mini-batch update is a convex combination of the previous topics and newly normalized ones, and the class distributions of the generative supervised variants are normalized per topic. The per-word topic assignments computed by the expectation steps sum to one over topics for every word that can be emitted, and the returned topic proportions are the prior plus the word-count weighted assignments.",
["inputs","configurations"],"every corpus and step combination",
"Tests check convergence or one likelihood value, not the normalization of every row and column.",
[UT,EU,LB]+ES+MS,[("normalize_rows / normalize_cols and equivalent expressions",UT)])
p("C27","Nothing refers to memory after its lifetime",
"No object stores a reference, pointer, iterator or lazily evaluated matrix expression to a temporary or local that ends before the object's last use, and no iterator is used after the container operation that invalidated it, including one made by a callback the loop itself calls. Callbacks registered by an object are unregistered before the object dies.",
["inputs","histories"],"every call sequence of the public API",
"A dangling reference usually still reads the old value in a small test.",
[EV,DOC,LDA,"src/ldaplusplus/optimization"]+[EM+"SemiSupervisedEStep.cpp"]+MS,[("reference members bound to caller-owned data","include/ldaplusplus"),("listener removed in destructor",EM+"SemiSupervisedEStep.cpp")])
p("C28","No result depends on uninitialized memory",
"Every constructor gives the built-in members that a later call reads a value, and every local variable and matrix buffer is given its content before that content can influence a result, an event, the stored state of an object, a branch or an argument to a callback; an accumulator is cleared before anything is added to it. This includes zero iteration limits, empty documents and the first use of an object after construction.",
["inputs","configurations","histories"],"every path through the library, including zero-iteration and empty-document ones",
"Uninitialized memory is often zero in small test processes.",
[GD,EU,NP]+ES+MS,[("constructor initializers","include/ldaplusplus"),("buffers filled before use","src/ldaplusplus")])
p("N01","The evidence lower bound does not decrease from one epoch to the next",
"For batch training, each complete epoch does not decrease the variational lower bound on the data.",
["inputs"],"every corpus and initialization","A test can only sample corpora.",[EU]+ES+MS,[("coordinate ascent updates","src/ldaplusplus")])
p("N02","Gradients equal the derivatives of the objectives they belong to",
"For every problem, the gradient returned at a point is the derivative of the value at that point.",
["inputs"],"every data set and parameter matrix","Tests compare against finite differences at sampled points.",["src/ldaplusplus/optimization"],[("hand derived formulas","src/ldaplusplus/optimization")])
p("N03","Training results do not depend on the number of workers or their schedule",
"Training with the same seed gives the same model whatever the number of workers and their scheduling.",
["schedules"],"every schedule","One schedule per test run.",[LDA],[("commutative accumulation","src/ldaplusplus/em")])
p("N04","Special functions and likelihoods are accurate to a stated tolerance",
"The digamma approximation, the table-based exponential and the reported likelihoods differ from the exact values by no more than a small relative error.",
["inputs"],"every argument","Tests sample arguments.",[UT,EU],[("series and table approximations",UT)])
p("N05","A trained model predicts held out labels better than chance",
"On separable data the supervised models predict held out labels more accurately than chance.",
["inputs"],"every separable corpus","Tests sample one data set.",[LDA]+MS,[("supervised updates","src/ldaplusplus/em")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
