"""One line per property for MANIFEST.json: what decides it."""
NOTE = {
 "P01": "TLC: life cycle of a model (SAInit) exhaustively; generated histories replayed and random starts judged by SAInit_Trace",
 "P02": "TLC: exact integer multiplicative update (NMF) exhaustively; recorded updates of the real code judged by NMF_Trace",
 "P03": "TLC: training loop (Train) exhaustively; every generated loss sequence replayed in the real loop, real trainings judged by Train_Trace",
 "P04": "TLC: per-cell loss arithmetic (Loss) exhaustively; metric calls and trained models judged cell by cell by Loss_Trace",
 "P05": "TLC: all worker interleavings (Batch); completion orders imposed on the real batch, results judged by Batch_Trace",
 "P06": "TLC: all loss assignments and failures (Batch); real batches with ties, NaN losses and faults judged by Batch_Trace",
 "P07": "TLC: block and column resampling (Boot) exhaustively; every recorded resample judged by Boot_Trace",
 "P08": "TLC: exact integer correlation mapping and table compilation (BootMap); real mappings and bootstraps judged by BootMap_Trace",
 "P09": "TLC: displacement search on exact parabolas (Disp); limits of real runs recomputed and judged by Disp_Trace",
 "P10": "TLC: all completion orders (DispSched), replayed through the pool of the real code; tables judged by Disp_Trace",
 "P11": "TLC: all completion orders and folds (BSDisp); real BS-DISP runs under all orders judged by BSDisp_Trace",
 "P12": "TLC: all edit histories of a small registry (Registry); generated and random histories replayed in the real class, judged by Registry_Trace",
 "P14": "TLC: loading, categories and processed data (DataH); generated edit histories replayed in the real handler, judged by DataH_Trace",
 "P15": "TLC: loading and cleaning over all small datasets (DataH); real loads from files and frames judged cell by cell by DataH_Trace",
 "P16": "TLC: split and merge conservation over all small datasets (DataH); real splits and merges judged by DataH_Trace",
 "P17": "Persist.tla: design checked exhaustively (3 classes, 2 names, 5 operations); random histories of 12 saves, changes, damage and loads over all seven classes replayed on real objects; truncation at sampled bytes (thorough: every byte)",
 "P18": "TLC: partition, averaging under every arrival order and selection (Estimator) exhaustively; real searches under imposed completion orders judged by Estimator_Trace",
 "P19": "TLC: swap test and assignment (Match) in exact arithmetic exhaustively; real comparisons of integer, permuted and noisy solutions judged by Match_Trace",
 "P20": "TLC: clustering (Catalog) over all short histories; histories generated by TLC replayed in the real catalogue and judged by Catalog_Trace",
 "P21": "TLC: requests and what they may change (Simulator) exhaustively; histories generated by TLC replayed twice in the real simulator, every draw judged by Simulator_Trace",
 "P22": "TLC: seeds, workers and completion orders (Perturb) exhaustively; real runs under imposed orders, multipliers, retrained models, mappings and figures judged by Perturb_Trace",
 "P23": "TLC: gap patterns and rules (Impute) exhaustively; real imputations of generated datasets judged value by value by Impute_Trace",
 "P24": "TLC: selections, items, aggregation groups (Analysis) exhaustively; captured figures and tables of real models judged number by number by Analysis_Trace",
 "P25": "TLC: runs, items, dQ and summaries (ErrFigures) exhaustively; captured figures of real runs judged number by number by ErrFigures_Trace",
 "P26": "TLC: runs, names, configurations and shows of a project (Project) exhaustively; generated command histories carried out with the real command line, results matched with the library's and judged by Project_Trace",
 "P13": "TLC: constrained iteration (Constrained) and solving of expressions (Express) exhaustively; every iteration of real trainings recorded and judged by Constrained_Trace",
 "P27": "TLC: significance patterns, horizons and recommended sizes of small autocorrelation tables (Blocks) exhaustively; datasets of several kinds loaded, excluded and included through the real DataHandler, the recommended size judged by Blocks_Trace",
 "P28": "TLC: figures of all small solutions and mappings (Compare) exhaustively; real figures drawn for generated solutions, their traces compared value by value by Compare_Trace",
 "P29": "lib.rs of the tree compiled against stand-ins of its crates and used by the library as in production; iterations (NMF_Trace), stopping, reports, losses and equality with the Python training (Native_Trace) judged by TLC",
}
NA = {}
