import json
P=[]
GE="src/python/deepgnn/graph_engine/"
def p(id,title,st,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("E01","Queries answer what the text files say, through conversion and servers",
  "For every graph written as text in any of the supported forms, converted with any number of partitions and workers and opened in memory, on disk, from a remote folder or through any set of servers, every query (node types, features, neighbours, counts, at any time for temporal graphs) gives exactly what the text says, the totals per type agree with it, and weighted samplers draw every element with its share of the weight.",
  ["inputs","configurations"],"all pairs of nodes over an alphabet of features and edge lists in every text form, with the ways to convert and open taking turns; selected graphs in every form with every number of partitions and workers up to 3 and 2 and every grouping on up to 3 servers; temporal graphs and samplers over small alphabets",
  "The tests of the repository check the converter against bytes and the engine against fixed folders; the few that go from text to answers use one graph, one partition and one way to open it, and need the native library.",
  [GE+"snark/convert.py",GE+"snark/decoders.py",GE+"snark/converter/writers.py",GE+"snark/client.py",GE+"snark/_downloader.py","src/cc/lib/graph/partition.cc","src/cc/lib/graph/graph.cc","src/cc/lib/distributed/client.cc"],
  [("file format shared by converter and engine","snark/converter/writers.py, src/cc/lib/graph/partition.cc"),("merging of the answers of servers","src/cc/lib/distributed/client.cc")],
  ["answers of the Python client"])
p("E02","A data set delivers to its workers what the graph says of every sample",
  "The batches that a data set gives to all its workers and replicas together contain every sample of its source exactly once per epoch (apart from the documented padding or dropping), and with each sample exactly what the graph says of it (features, types, multi-hop neighbourhood, sub-graph). Options given to the data set reach the sampler unchanged, the length equals the number of batches, a second pass gives the same again, and samplers that draw from the graph draw only elements of the asked types, as many as there are.",
  ["inputs","configurations"],"sources of up to 6 samples, batches of up to 3, up to 3 workers and 2 replicas, 1 or 2 epochs, dropping on and off, padding ids including zero, for node-range, node file, edge file, tuple, CSV and graph samplers, over a converted graph in 1-3 partitions in memory, on disk or on servers",
  "The data set tests of the repository need the native library and TensorFlow or PyTorch, and use one worker, one sampler and a graph with one partition.",
  [GE+"graph_dataset.py",GE+"samplers.py",GE+"multihop.py",GE+"graph_ops.py",GE+"backends/snark/client.py",GE+"snark/local.py",GE+"snark/distributed.py"],
  [("options handed to the sampler","graph_dataset.py"),("backend made from options","graph_dataset.py, backends/snark/client.py")])
p("C01","Conversion to binary preserves every node, edge, feature and weight",
  "Decoding the binary files written for a graph gives back exactly the nodes, node types, edges, edge types, weights and features (dense of every element type, string and sparse) that were in the input, each exactly once and attached to the right owner, with missing features reported as missing. The counts and per-type weights in the metadata equal the sums over those nodes and edges. A finished conversion leaves none of its temporary files behind.",
  ["inputs"],"every small graph (up to 3 nodes, up to 3 edges, types, weights, per-feature presence/shape alphabets), including edges listed apart from their source node, empty graphs and duplicate edges; selected larger ones with up to 1025 elements of each kind and values at the limits of their types",
  "convert_test.py compares bytes for a handful of fixed graphs; index offsets only go wrong for particular combinations of absent features, absent nodes and empty neighbour lists.",
  [GE+"snark/converter/writers.py",GE+"snark/converter/process.py",GE+"snark/convert.py",GE+"snark/decoders.py",GE+"snark/meta.py"],
  [("index/data offset bookkeeping of the node, edge, feature and neighbour files","snark/converter/writers.py"),("metadata totals","snark/convert.py, snark/converter/process.py")],
  ["files in the output folder","meta.json"])
p("C02","The same graph in JSON, edge list or TSV form converts to the same graph",
  "A graph written in any of the supported text forms that can express it is decoded to the same node and edge records and converts to the same binary graph. A malformed or incomplete record is reported as an error or handled as documented, and never changes what neighbouring records decode to.",
  ["inputs","programs"],"all records of a small grammar (ids, types, weights, feature kinds, feature gaps, neighbour lists, escaped separators) in each text form, in sequences of up to three lines, with feature types told for all, some or none of the features",
  "The decoder tests use one or two literal lines per format, never compare formats with each other and never decode a sequence of different lines with one decoder object.",
  [GE+"snark/decoders.py",GE+"snark/converter/writers.py",GE+"snark/converter/process.py"],
  [("line parsers","snark/decoders.py")])
p("C03","Partition count and converter worker split do not change the graph",
  "For every partition count and every split of the conversion over workers, the union of the partitions is the same graph: each node and edge lies in exactly one partition, partition numbers are distinct and contiguous, and the final (merged) metadata equals the metadata of a one-worker conversion in every total, per-type count, watermark and per-partition weight. ",
  ["configurations","inputs"],"all partition and worker counts up to 16 (including more workers than partitions and uneven splits), worker outputs merged in any order, over an alphabet of small graphs whose workers see different node and edge types",
  "One test converts with two workers and one partition each; uneven splits, several partitions per worker, ten or more workers and workers that see different types are never run.",
  [GE+"snark/convert.py",GE+"snark/dispatcher.py",GE+"snark/meta_merger.py",GE+"snark/meta.py",GE+"_adl_reader.py"],
  [("partition offset arithmetic","snark/convert.py"),("worker metadata merge","snark/meta_merger.py"),("per-type padding","snark/dispatcher.py")])
p("C04","Sampling tables written by conversion encode exactly the input weights",
  "In the table written for each node type and each edge type of a partition, the probability mass that the table gives to an element is its weight divided by the total weight of that type in the partition, every element of the type is present exactly once as a row, and types with no elements have an empty table. Tables are omitted exactly when the caller asked to skip them.",
  ["inputs"],"all weight vectors of up to 6 elements over a small alphabet of weights (including equal, zero and very unequal ones), for one and two types, nodes and edges, tables skipped or not",
  "alias_test.py and convert_test.py check two weight vectors with tolerance on sampled frequencies; a misplaced remainder changes probabilities only for some orderings of weights.",
  [GE+"snark/alias.py",GE+"snark/converter/writers.py"],
  [("Vose alias construction","snark/alias.py"),("alias writers","snark/converter/writers.py")])
p("C05","Parallel conversion never loses, repeats or mixes records and always ends",
  "Whatever the interleaving of the dispatching thread and the converter workers, every dispatched record reaches exactly one worker once and in dispatch order, all workers finish and are accounted for in the totals, and the output files are the same for every interleaving. Conversion terminates, and a worker that fails does not let the conversion report success.",
  ["schedules","configurations","fault_sequences"],"all interleavings up to the preemption bound of dispatcher and 1-3 workers over channels of capacity one or more, for round-robin and keyed dispatch, threads or processes, with up to 5 records, including failing records and unused partitions",
  "The tests run each dispatcher once under the OS scheduler; nothing controls which worker finishes first, and failing records are never dispatched.",
  [GE+"snark/dispatcher.py",GE+"snark/converter/process.py",GE+"snark/convert.py"],
  [("per-worker pipes/queues with end markers","snark/dispatcher.py, snark/converter/process.py")])
p("C06","An interrupted conversion never passes for a complete graph",
  "If conversion stops at any point (crash between or inside any file operation), the output folder either has no metadata file that can be loaded or is a complete, correct graph. Running the conversion again into the same folder gives exactly the files of an uninterrupted run.",
  ["crash_points"],"every file-system operation of the conversion (open, each write with every cut of the last write, close) as a crash point, for one and several workers, then a rerun",
  "Tests never stop a conversion; a metadata file written early or a stale file read back only shows after a crash at the right operation.",
  [GE+"snark/convert.py",GE+"snark/converter/writers.py",GE+"snark/meta_merger.py"],
  [("metadata written last","snark/convert.py"),("files opened for overwrite","snark/converter/writers.py")])
p("C07","Temporal conversion keeps the validity interval of every edge and feature",
  "For temporal input, each edge's stored creation and removal times and each stored version of a dense feature are those of the input (with the documented defaults for missing times), the edges of a node are stored ordered by type and then creation time, and the watermark in files and metadata is the one given. A node record with an edge that is created before or removed after its node is rejected.",
  ["inputs"],"all temporal node/edge records over a small time alphabet (missing, 0, 1, 2, watermark), with up to 3 edges and up to 2 versions per feature, in both text forms; selected ones with times up to 2^60, 257 edges and 39 versions",
  "temporal tests use a few fixed increasing timestamps; zero times, missing removal times and equal times are not covered.",
  [GE+"snark/converter/writers.py",GE+"snark/decoders.py",GE+"snark/convert.py"],
  [("interval defaults and checks","snark/converter/writers.py"),("temporal feature serialisation","snark/decoders.py")])

p("D01","The text reader delivers every line exactly once and in order",
  "For any file content, block size, read-ahead depth, thread count, batch size, number of workers and epochs, the lines delivered by all workers together are the lines of the file, each exactly once per epoch and in file order within a worker, whole and unaltered, in batches of the requested size except for the last one.",
  ["inputs","configurations","schedules"],"all file contents up to 7 bytes over an alphabet with line breaks, blank lines, multi-byte characters and no final newline; all block sizes from 1 byte, batch sizes, worker splits, epochs; all reader-thread interleavings up to the preemption bound; selected files of up to 257 lines, up to 12 files and 10 threads",
  "Tests read generated files with one large block, so block edges almost never fall inside a line, a multi-byte character or a blank line, and the OS scheduler decides the thread order.",
  [GE+"_adl_reader.py",GE+"samplers.py"],
  [("block splitting and stitching of partial lines","_adl_reader.py"),("ordered hand-over between reader threads","_adl_reader.py")])
p("D02","The text reader can be restarted or abandoned and reports read failures",
  "Stopping an iteration at any point and starting it again gives the full sequence from the beginning, in any interleaving with the read-ahead threads, and never blocks forever. A failure to open or read the file reaches the consumer as an error and is never presented as the end of the data.",
  ["histories","schedules","fault_sequences"],"all sequences of iterate/stop/restart up to depth 3, all interleavings up to the preemption bound, and a read failure injected at each block read",
  "One test resets the reader once at one point with real threads; no test makes a read fail.",
  [GE+"_adl_reader.py"],
  [("reset of reader threads and queues","_adl_reader.py")])
p("D03","Prefetching delivers every batch exactly once, surfaces errors and ends",
  "For every interleaving of producers and consumer, a prefetching iterator delivers every batch that the underlying sampler and query produce exactly once (in order when there is one producer), then stops; an error raised while producing reaches the consumer, after which the iteration is over. Closing or abandoning the iterator at any point ends all its workers without blocking.",
  ["schedules","fault_sequences","configurations"],"all interleavings up to the preemption bound for 1-3 workers, queue depths 1-2, 0-4 batches, an error at any batch in sampler or query, closing after any number of batches",
  "Existing tests consume a whole data set under one OS schedule; end markers racing with late items and failures near the end never happen.",
  [GE+"prefetch.py",GE+"graph_dataset.py"],
  [("bounded queue with end/exception markers","prefetch.py")])
p("D04","Samplers split data over workers and replicas without loss or overlap",
  "For each sampler over a finite source, the batches drawn by all workers and all data-parallel replicas together contain every element of the source exactly once per epoch (apart from the documented padding or dropping of an incomplete last batch), in source order unless shuffling was asked for, with every batch having the requested size and the elements unaltered.",
  ["configurations","inputs"],"all source sizes up to 13, batch sizes up to 4, worker counts up to 3, replica counts up to 3, epochs up to 2, drop_last on/off, shuffle on/off, for node-range, file, text, CSV and edge samplers; selected sizes up to 257 and up to 12 files",
  "Sampler tests use a few sizes, mostly with one worker and no replicas.",
  [GE+"samplers.py"],
  [("index arithmetic of the samplers","samplers.py")])
p("D05","A sampler's length and repeated iteration agree with what it yields",
  "The number of batches a sampler reports equals the number it then yields, for every worker and replica. Iterating a second time, resetting, or continuing after a partial iteration yields the same sequence again from the start, and a copy of the sampler restored in another process behaves as the original.",
  ["configurations","histories"],"the D04 configurations, and all histories of len/iterate/partial iterate/reset/pickle up to depth 3",
  "Lengths are asserted for two configurations; restart after partial iteration is tested for one sampler.",
  [GE+"samplers.py"],
  [("length formulas and iterator state","samplers.py")])

p("D06","The uploader stores every chunk exactly once, reports failures and ends",
  "In every interleaving of the writer, the upload processes and their threads, closing the uploader returns, and then the stored files together hold every written chunk exactly once, with nothing lost, repeated, cut or mixed. Writing never blocks forever when the queues are full. If anything could not be stored, writing or closing raises an error, and no process or thread is left.",
  ["schedules","configurations","fault_sequences"],"all sequences of up to 3 writes of single chunks and lists of lines (empty ones included) x 1-3 processes x 1-2 threads x queue sizes x chunks per file x lines per chunk, each storage operation and the sign-in failing, slow storage, closing once, twice or by a with block; all schedules within 1-2 delays for selected configurations",
  "No test covers the uploader.",
  [GE+"adl_uploader.py"],
  [("queues between writer, processes and threads","adl_uploader.py")])

p("S01","Workers and servers start and stop in step, whatever their relative speed",
  "In every interleaving of a job's workers, no client starts before every server is ready, no server stops before every client has finished, and when nobody fails all of them complete start-up and shutdown without a timeout or error. After all have stopped, the synchronisation folder holds no leftover markers, so that a second run in the same folder behaves like the first.",
  ["schedules","configurations","fault_sequences"],"all interleavings up to the preemption bound of 1-3 workers each with a server and a client (plus server-only and client-only jobs), over file-system steps; servers or clients that fail to start, missing workers, idle workers, slow processes, and consecutive runs in one folder",
  "test_synchronized.py starts one server and one client in one fixed order with real sleeps.",
  [GE+"backends/snark/synchronized.py",GE+"backends/snark/client.py",GE+"backends/snark/distributed.py" if False else GE+"backends/snark/client.py"],
  [("marker files and polling","backends/snark/synchronized.py")])
p("S02","Every process agrees on server numbers, addresses and data shards",
  "For every cluster layout given by arguments or environment, each graph server gets a distinct number and address, all clients use the same ordered list of addresses, the partitions assigned to the servers cover the graph exactly once, and processes of one job derive the same layout. A layout that cannot work is refused.",
  ["configurations","schedules"],"all layouts with up to 4 hosts and up to 12 address files, any order of directory listing, partition counts up to 13 per server count up to 5, worker ranks and environment combinations",
  "The tests construct one layout with one server.",
  [GE+"backends/snark/client.py",GE+"backends/options.py",GE+"snark/server.py",GE+"snark/distributed.py"],
  [("address exchange through files","backends/snark/client.py"),("partition assignment","backends/snark/client.py, snark/server.py")])
p("S03","Downloading a remote graph fetches exactly the files the requested shards need",
  "After downloading any set of partitions of a remotely stored graph, the local folder holds a byte-exact copy of every file needed to serve these partitions (metadata, topology, features, sampling tables, temporal data) and of no other partition, for every graph and every subset. A failed or interrupted transfer is reported and never leaves a folder that is taken for complete. Closing the graph removes the local copy.",
  ["configurations","inputs","fault_sequences"],"all small graphs of the C01 alphabet (plain and temporal, with and without sampling tables), partition counts up to 3 and all subsets, a transfer failure at each file",
  "The downloader tests need a native library and one fixed graph and are not part of the runnable suite; no failure is injected.",
  [GE+"snark/_downloader.py",GE+"snark/local.py",GE+"snark/meta.py"],
  [("file list per partition","snark/_downloader.py")])

p("G01","Multi-hop neighbourhood sampling returns the tree the graph engine answered",
  "For every graph answer and fan-out list, multi-hop sampling expands each hop from exactly the nodes returned for the previous hop with the requested count, edge types and defaults, keeps order and shape; full multi-hop neighbourhoods list exactly the neighbours with the right adjacency and padding; sampled out-edges and their features refer to exactly the edges that were answered.",
  ["inputs","programs"],"all engine answers over a 3-node id alphabet (with default id), fan-out lists up to 3 hops with counts up to 2, one or several edge types",
  "Tests use one mock with constant answers, so swapped hops or wrong reshape give the same result.",
  [GE+"multihop.py",GE+"graph_ops.py"],
  [("hop expansion","multihop.py")])
p("G02","Sub-graph and skip-gram builders follow their definitions exactly",
  "The sub-graph built around any seed set contains exactly the nodes within the requested number of hops, with adjacency entries exactly for the edges that leave nodes at a smaller distance (plus reverse edges and self loops when asked for) and seeds mapped to their rows; skip-gram pairs built from any walks are exactly the pairs of positions within the left and right window, in walk order.",
  ["inputs","configurations"],"all directed graphs on up to 3 nodes (with self loops), seed lists with repeats, 1-5 hops; all walk lengths up to 7 with left/right windows 0..7",
  "One graph and one symmetric window are tested.",
  [GE+"graph_ops.py"],
  [("id relabelling and window arithmetic","graph_ops.py")])
p("G03","Forest-fire sampling and graph statistics stay inside the graph and end",
  "For every outcome of the random draws, forest-fire sampling returns a sub-graph of the input that has exactly the requested number of nodes, was spread along edges of the input in both directions, and contains no other edges; it ends whenever enough nodes can be reached. The reported graph statistics equal their textbook definition, and an estimate made from random draws has that definition as its expected value.",
  ["inputs","schedules"],"all directed graphs on up to 3 nodes with self loops and selected larger ones, all target sizes, all outcomes of every random draw up to a bounded depth; statistics of all directed graphs on up to 4 nodes",
  "Tests fix the seed and one graph.",
  [GE+"snark/preprocess/sampler/forest_fire.py",GE+"snark/preprocess/sampler/metric.py"],
  [("burning loop","preprocess/sampler/forest_fire.py"),("metric formulas","preprocess/sampler/metric.py")])

p("G04","A data set is built into exactly the graph its raw files describe",
  "For every content of the raw files of the citation, protein and Reddit data sets, and for every option, the graph that is built and then loaded has exactly the nodes of the files, with their features, labels and the type of their split, and every link in both directions with the type of the splits it joins. All partitions are loaded, the lists of training, validation and test nodes agree with the node types, and building in a folder that already holds the data set or from a downloaded file makes no difference.",
  ["inputs","configurations"],"all raw files with 1-4 nodes and up to 2 links (self loops, repeated, unknown papers), all splits of up to 3 nodes, training ratios from 0 to 1, random selection, 1-4 partitions, files given, downloaded, or built again, and the command lines",
  "Tests need the network or the native library and look at a few values of the full data sets.",
  [GE+"data/data_util.py",GE+"data/cora.py",GE+"data/citeseer.py",GE+"data/ppi.py",GE+"data/reddit.py"],
  [("numbering, splits, adjacency and partitions","data/*.py")])

PT="src/python/deepgnn/pytorch/"
p("T01","Killed training resumes exactly; evaluation and inference see every batch",
  "However often and at whatever moment a training job is killed and started again with the same options, it ends with the model that an uninterrupted job trains: the same batches in the same order with the same learning rates, none left out and none trained twice. A restart finds the newest complete checkpoint, the checkpoints written and kept are the ones the options ask for, and the model of the last epoch is saved. Each evaluation and each inference goes over every batch once without changing the model, and its metric or embeddings are those of these batches, for one worker or several ranks and for any number of data loading workers.",
  ["crash_points","configurations","histories"],"all contents of the checkpoint folder that any number of kills can lead to (before every change of the folder and in the middle of every write), 0-4 batches, 1-3 epochs, all limits and saving options, epoch and step numbers of any number of digits, 1-3 ranks with DDP and Horovod, mixed precision, 0-3 loader workers",
  "The trainer tests need torch, run to the end without a kill, and look at checkpoints of four epochs.",
  [PT+"training/trainer.py",PT+"training/trainer_fp16.py",PT+"training/trainer_ddp.py",PT+"training/trainer_hvd.py",PT+"training/factory.py",PT+"common/utils.py",PT+"common/dataset.py"],
  [("step and epoch bookkeeping, saving and loading","pytorch/training/trainer.py"),("order and rotation of checkpoints","pytorch/common/utils.py"),("loader workers","pytorch/common/dataset.py")])

TF="src/python/deepgnn/tf/common/"
p("T02","TensorFlow workers wait for each other; the last checkpoint has all their work",
  "With the TensorFlow trainers every worker runs over its batches of the data set once per epoch, no worker leaves training, evaluation or inference before all the workers have finished, and the last checkpoint, written by the chief alone, holds the updates of all of them. This also holds when the model directory has what earlier runs, killed at any moment, left behind. Evaluation and inference use the last checkpoint; inference writes every node's embedding once, into a file of its own worker, and the embeddings read back are the ones computed.",
  ["schedules","configurations","crash_points"],"parameter server and Horovod trainers in graph and eager mode, train/evaluate/inference, 1-3 workers, every subset of synchronisation files of earlier runs, an older checkpoint or none, 0-2 batches per worker (up to 33 in one schedule), 1-3 epochs, directory names with pattern characters, all schedules within 1-2 preemptions for 2 workers and 0-1 for 3; all small embedding files",
  "The trainer tests need tensorflow and start in an empty directory, where leftover files and the order of workers can not matter.",
  [TF+"trainer.py",TF+"ps_trainer.py",TF+"horovod_trainer.py",TF+"trainer_factory.py",TF+"dist_sync.py",TF+"utils.py",TF+"dataset.py"],
  [("barriers between workers","tf/common/dist_sync.py"),("chief saving after the others","tf/common/utils.py"),("embedding files","tf/common/trainer.py")])

p("Q01","Local queries answer exactly what is in the converted graph",
  "For every graph and every query (node types, dense/string/sparse features of nodes and edges, neighbour lists and counts), the answers through the client are those read off the input graph, in the order asked, with the documented defaults for unknown nodes, edges, types and features. The answer does not depend on the number of partitions, on their grouping into folders, or on memory or disk storage.",
  ["inputs","configurations"],"all small graphs of the C01 alphabet, all queries over present and absent ids/types/features with repeats, 1-3 partitions, storage in memory or on disk; sparse features of every element type with up to 300 coordinates; selected graphs with up to 300 nodes and 12 partitions, and nodes with up to 40 edges of a type",
  "The engine tests need the native library, which the runnable suite lacks; they use a few fixed graphs.",
  [GE+"snark/client.py",GE+"snark/local.py","src/cc/lib/py_graph.cc","src/cc/lib/graph/graph.cc","src/cc/lib/graph/partition.cc"],
  [("partition lookup and merge","src/cc/lib/graph/graph.cc, partition.cc"),("argument marshalling","snark/client.py")])
p("Q02","Distributed queries answer as a local graph does, in any reply order",
  "For every assignment of partitions to servers and every order in which servers reply, all queries through a distributed client give the answers that a local client over the same graph gives.",
  ["configurations","schedules","inputs"],"all assignments of up to 3 partitions to up to 3 servers (also servers without data for the node) and selected ones of up to 12 partitions, all permutations of reply delivery, the Q01 graphs and queries, counts and metadata",
  "The suite uses two servers on one machine and whatever reply order happens.",
  ["src/cc/lib/distributed/client.cc","src/cc/lib/distributed/graph_engine.cc","src/cc/lib/graph/merger.h",GE+"snark/distributed.py",GE+"snark/client.py"],
  [("reply merging by offsets","src/cc/lib/distributed/client.cc, src/cc/lib/graph/merger.h")])
p("Q03","Temporal queries see exactly the snapshot at the requested time",
  "For every temporal graph and query time, neighbours, counts, features and samples are exactly those of the snapshot containing the edges and feature versions with creation time not after and removal time after that time, and the most-recent-neighbours query returns the newest ones among them.",
  ["inputs","configurations"],"all temporal graphs with up to 3 edges of a node over 4 time points, all query times including before, at and after each bound, 1-2 partitions, local and distributed; several nodes at several times in one request; up to 40 edges of a type",
  "temporal_test.py asks at a few times strictly between events.",
  ["src/cc/lib/graph/partition.cc","src/cc/lib/graph/graph.cc","src/cc/lib/distributed/client.cc",GE+"snark/client.py"],
  [("interval search per edge type","src/cc/lib/graph/partition.cc")])
p("Q04","Sampled neighbours are always real neighbours, or the documented default",
  "For every outcome of the random draws, each sampled neighbour is a neighbour of the node over one of the requested edge types, reported with that edge's own type and weight; without replacement no edge is returned twice and all are returned when no more than asked for exist; nodes without such neighbours give the default values only.",
  ["inputs","configurations"],"all graphs with up to 3 edges per node over 2 types and up to 3 partitions/servers, sample counts 1-3, all outcomes of every random draw (discretised to the weight grid), with and without replacement",
  "Tests draw with one seed.",
  ["src/cc/lib/graph/partition.cc","src/cc/lib/graph/graph.cc","src/cc/lib/graph/reservoir.cc","src/cc/lib/distributed/client.cc",GE+"snark/client.py"],
  [("weighted and reservoir sampling, merge between partitions and servers","src/cc/lib/graph/partition.cc, reservoir.cc, distributed/client.cc")])
p("Q05","Neighbour sampling has exactly the requested probabilities",
  "The expected share of each neighbour among the sampled positions is its weight over the total weight of the node's edges of the requested types valid at the requested time (or equal for uniform sampling); without replacement all sets of neighbours of the asked size are equally likely. This holds however the edges are spread over partitions and servers and in whatever order servers reply.",
  ["inputs","configurations"],"the Q04 space with the exact probability of every outcome summed over the complete tree of draws",
  "Sampled frequencies with tolerance in a test cannot tell a small bias, and only one layout is drawn from.",
  ["src/cc/lib/graph/partition.cc","src/cc/lib/graph/graph.cc","src/cc/lib/distributed/client.cc","src/cc/lib/graph/reservoir.cc"],
  [("running-total replacement of samples across partitions","src/cc/lib/graph/partition.cc, distributed/client.cc")])
p("Q06","Node and edge samplers draw existing elements of the asked types only",
  "Samplers for nodes and edges by type return only elements that exist with one of the asked types, with probability proportional to weight (or equal), over any partition and server layout; without replacement each element appears at most once per pass. Sampling is reproducible from its seed.",
  ["inputs","configurations"],"all type assignments of an alphabet for up to 4 nodes/edges over 3 types, 1-3 partitions in one or several folders, 1-3 servers (also without partitions), counts 1-3, all outcomes of the draws; two strategies after each other through the Graph interface",
  "Tests draw with fixed seeds and compare the support loosely.",
  ["src/cc/lib/graph/sampler.cc","src/cc/lib/distributed/graph_sampler.cc","src/cc/lib/distributed/client.cc",GE+"snark/local.py",GE+"snark/client.py"],
  [("alias table sampling and shard/partition choice","src/cc/lib/graph/sampler.cc")])
p("Q07","Random walks and personalised PageRank samples follow existing edges",
  "Every step of a random walk goes along an existing edge of the asked types (or back to the node it came from), or yields the default from the first dead end on, for all outcomes of the draws, with the second-order transition probabilities defined by the return and in-out parameters and the edge weights. Personalised PageRank sampling returns only nodes reachable over the asked edges, with weights equal to the approximate PageRank of the node.",
  ["inputs","configurations"],"all directed graphs on 3 nodes with up to 4 edges (self loops included), weighted and typed variants, temporal variants; walks up to length 4, three pairs of p and q, all outcomes of draws; local, 2 partitions, 2 servers",
  "Tests look at average statistics on one graph.",
  ["src/cc/lib/py_graph.cc",GE+"snark/client.py"],
  [("walk loop","src/cc/lib/py_graph.cc")])
p("Q08","A failed server request is reported, retried cleanly, and never returned as data",
  "If any server's reply to any request fails, the client call either succeeds with the full correct answer after retrying or raises; it never returns a partial answer as complete, never touches freed memory, and a later call on the same client works normally.",
  ["fault_sequences","schedules"],"every subset of failing replies among up to 3 servers, every delivery order, up to 3 attempts, every error status, for every kind of query; all gRPC retry options accepted by the client and the waits between attempts",
  "No test makes a server fail.",
  ["src/cc/lib/distributed/client.cc","src/cc/lib/distributed/call_data.cc","src/cc/lib/py_graph.cc",GE+"snark/client.py"],
  [("promise per request and exception propagation","src/cc/lib/distributed/client.cc"),("retry policy","snark/client.py")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        x["anchors"]["files"]=list(dict.fromkeys(x["anchors"]["files"]))
        x["statement"]=x["statement"].strip()
        f.write(json.dumps(x)+"\n")
print(len(P))
