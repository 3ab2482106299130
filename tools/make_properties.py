#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand; both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None,
         note=None, technique=None, assume=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, observe=observe,
                  technique=technique, note=note))

prop('C01', 'A vocabulary is a consistent partition of exactly the given words',
  'For every vocabulary file (plain words, numbered classes or SRILM classes) and every table of word counts, the resulting vocabulary contains exactly the given words, the special tokens <s>, </s> and <unk>, and the additional out-of-shortlist words, each once, with word IDs that map back and forth and classes that partition the shortlist exactly as specified. Words outside the vocabulary are treated as <unk>, and out-of-shortlist words take the class of <unk>. A file that repeats a word or has a wrong number of fields on a line is rejected.',
  ['inputs'], 'all vocabulary files in three formats, out-of-shortlist word lists and word count tables',
  'The tests read three fixed files; IDs, classes and special tokens interact with word order, blank lines, special tokens in the file and repetitions in ways that only arbitrary files show.',
  ['theanolm/vocabulary/vocabulary.py', 'theanolm/vocabulary/wordclass.py'],
  [('file parsing and duplicate detection', 'Vocabulary.from_file'), ('modulo assignment to classes', 'Vocabulary.from_word_counts'), ('special tokens', '_add_special_tokens'), ('ID lookups', 'words_to_ids, get_class_memberships, in_shortlist')])

prop('C02', 'Saving and loading a vocabulary preserves it',
  'Writing any vocabulary into a model file and reading it back gives a vocabulary with the same words, word IDs, shortlist, classes, class membership probabilities and unigram probabilities, also when the file already held an earlier version of that vocabulary or another one with as many words, which is replaced. A model file from which a part of the vocabulary is missing, or whose unigram probabilities do not match the words, is rejected as incompatible.',
  ['inputs', 'histories'], 'all vocabularies, and sequences of probability updates and saves into the same file',
  'One test saves one vocabulary of a fixed file; it does not rewrite files, use non-ASCII words, or remove parts of the state.',
  ['theanolm/vocabulary/vocabulary.py'],
  [('HDF5 serialisation', 'Vocabulary.get_state / from_state')])

prop('C03', 'Class, class-membership and out-of-shortlist probabilities are normalised',
  'After reading a vocabulary or estimating it from any word counts, the membership probabilities of each class sum to one and are proportional to the given weights or counts (equal where none of a class has any), and when estimated from counts the special tokens never get zero membership probability. The factors that divide the <unk> mass among out-of-shortlist words sum to one and are proportional to training counts, shortlist words have factor one, and the class prior probabilities sum to one in proportion to the counts of the members.',
  ['inputs'], 'all vocabularies and count tables, including zero counts and counts of unknown words',
  'The tests compare a few probabilities of one file; zero counts, classes without counts and out-of-shortlist mass need arbitrary count tables.',
  ['theanolm/vocabulary/vocabulary.py', 'theanolm/vocabulary/wordclass.py'],
  [('estimation', 'Vocabulary.compute_probs'), ('out-of-shortlist mass', 'get_oos_probs'), ('class priors', 'get_class_probs'), ('normalisation', 'WordClass.normalize_probs')])

prop('C04', 'Every utterance reaches the model exactly once and unaltered',
  'Reading text in file order delivers, for any files, batch size, sequence length limit and vocabulary, every non-empty line exactly once and in order, as <s>, the words, </s>, with start and end markers added only where they are missing, empty lines skipped and longer lines cut into consecutive pieces no longer than the limit (a last piece of a single token, which has nothing to predict, is dropped). The mask marks exactly the real positions, positions after the end of a sequence hold the padding token, no mini-batch exceeds the batch size, and unknown (and, where requested, out-of-shortlist) words become <unk>. Each position is labelled with the file it came from, and the announced number of batches equals the number delivered, every time the data is read.',
  ['inputs', 'configurations'], 'all corpora (several files, empty lines, explicit markers, long lines), batch sizes, length limits, vocabularies',
  'The tests read one small corpus with a few batch sizes and compare counts; boundary interactions of line length, limit, batch size and file ends need generated corpora.',
  ['theanolm/parsing/batchiterator.py', 'theanolm/parsing/linearbatchiterator.py', 'theanolm/parsing/scoringbatchiterator.py', 'theanolm/parsing/functions.py'],
  [('batching, splitting and padding', 'BatchIterator'), ('sequential reading', 'LinearBatchIterator, ScoringBatchIterator'), ('markers', 'utterance_from_line')])

prop('C05', 'Shuffled training data: each epoch is a permutation that can be resumed',
  'Each epoch of shuffled reading delivers every non-empty line of every file exactly once (or, with sampling fractions, exactly the stated number of distinct lines of each file), whatever the order. A reading position saved between two mini-batches and restored later, in the same or a new process, continues with exactly the mini-batches that would have followed in that epoch, and later epochs are complete again. The announced number of batches is right for unsplit lines.',
  ['inputs', 'histories'], 'all corpora, sampling fractions, batch sizes and all positions where the state is saved and restored, over several epochs',
  'The test restores one position in one corpus; end of epoch, split lines and partially consumed buffers are states that only histories reach.',
  ['theanolm/parsing/shufflingbatchiterator.py', 'theanolm/parsing/batchiterator.py'],
  [('line order and sampling', 'ShufflingBatchIterator._reset / _readline'), ('checkpoint', 'get_state / set_state')])

prop('C06', 'The network output is a probability distribution over words',
  'For every architecture, parameter values and word history, the probabilities of the next class are between zero and one and sum to one (hierarchical softmax: at most one, and one when the number of classes fills the hierarchy), and multiplied with class membership (and out-of-shortlist) probabilities they sum to one over the words. The probability reported for a given target is the entry of that distribution that belongs to the target. When the unknown word is excluded from a softmax output, and is alone in its class, that class gets probability zero and the rest still sum to one.',
  ['inputs', 'configurations'], 'all architectures with softmax or hierarchical softmax output, parameter values, vocabularies and word sequences',
  'No test sums the output of a network; normalisation depends on vocabulary size, output factorisation and excluded classes.',
  ['theanolm/network/softmaxlayer.py', 'theanolm/network/hsoftmaxlayer.py', 'theanolm/network/samplingoutputlayer.py', 'theanolm/network/network.py'],
  [('softmax over classes', 'SoftmaxLayer.create_structure'), ('two-level softmax', 'HSoftmaxLayer.create_structure'), ('target lookup', 'Network.target_probs')])

prop('C07', 'A sentence scores the same in every mini-batch, and only the past counts',
  'The log probabilities that a network assigns to the words of a sequence do not depend on which other sequences, or how much padding, are in the same mini-batch, nor on the order of the sequences. In a network without bidirectional layers, the probability of a word depends only on the words before it: changing later words leaves it unchanged. Scoring is deterministic and does not apply dropout.',
  ['inputs', 'configurations'], 'all architectures, parameter values, sets of sequences of different lengths and changes of later words',
  'The tests score at most one fixed mini-batch with a fake network; leaks through padding, masks and time shifts need combinations of lengths and layer types.',
  ['theanolm/network/*.py', 'theanolm/scoring/textscorer.py'],
  [('masking of recurrent layers', 'LSTMLayer, GRULayer, BidirectionalLayer'), ('causal convolution', 'GLULayer'), ('mask in scoring', 'TextScorer.score_batch')])

prop('C08', 'Layers compute their documented functions of the stored parameters',
  'For every architecture and every parameter assignment in a model file, the network output equals the composition of the documented layer equations (projection, fully connected with its activation, addition, highway, gated linear convolution, LSTM, GRU, their bidirectional forms, dropout as identity outside training, softmax and hierarchical softmax), starting from zero recurrent state. In training mode dropout zeroes units at the configured rate and scales the remaining ones so that the expectation is unchanged.',
  ['inputs', 'configurations'], 'all acyclic compositions of the layer types, sizes, parameter values and word sequences',
  'No test evaluates a layer numerically except helper functions; a wrong gate or a transposed weight trains to a slightly worse model without any failure.',
  ['theanolm/network/*.py', 'theanolm/backend/operations.py', 'theanolm/backend/matrixfunctions.py'],
  [('layer equations', 'create_structure() of each layer'), ('activations', 'theanolm/network/weightfunctions.py, basiclayer.py')])

prop('C09', 'Evaluating word by word gives the same probabilities as whole sequences',
  'Feeding a sequence one word at a time while carrying the recurrent state gives, for every architecture without lookahead, the same word probabilities as evaluating the whole sequence at once, also when states of several hypotheses are batched together, split and regrouped between steps. Hence decoding a lattice with a single path gives the NNLM score that scoring the same sentence as text gives.',
  ['inputs', 'schedules', 'configurations'], 'all architectures, parameter values, sequences and groupings of hypotheses at every step',
  'The decoder tests use a stub network; state hand-over between steps is exercised for one layout of states only.',
  ['theanolm/network/recurrentstate.py', 'theanolm/network/network.py', 'theanolm/scoring/latticedecoder.py', 'theanolm/scoring/textscorer.py'],
  [('state in and out', 'Network.recurrent_state_input/output'), ('grouping of states', 'RecurrentState.combine_sequences')])

prop('C10', 'A saved model is reloaded with identical behaviour',
  'Saving a network and its vocabulary and architecture into a model file and loading the file gives a network that assigns exactly the same probabilities to every text, for every architecture, parameters and vocabulary; saving another state of the model over the same file replaces all of it. A model file whose parameters, architecture or vocabulary are missing or do not fit is rejected with an incompatible-state error and never loaded partially.',
  ['inputs', 'histories', 'configurations'], 'all architectures, vocabularies, parameter values, save/overwrite/load sequences and removals of parts of the file',
  'No test loads a saved network; round trips of list-valued layer options, many inputs and overwriting are not reached.',
  ['theanolm/network/network.py', 'theanolm/network/architecture.py', 'theanolm/backend/parameters.py', 'theanolm/vocabulary/vocabulary.py'],
  [('network state', 'Network.get_state / set_state / from_file'), ('parameters', 'Parameters.get_state / set_state'), ('architecture', 'Architecture.get_state / from_state / check_state')])

prop('C11', 'Text scores are the exact sums of the word log probabilities',
  'The score of a text is, for every model, vocabulary and text, the sum over all words after the sentence start of the log of (network class probability times class membership probability, times the out-of-shortlist fraction when that option is on); perplexity is the exponential of the negative mean. Unknown words are excluded from both the sum and the word count when so requested, and words that have no training count are ignored when the <unk> mass is divided among out-of-shortlist words. Scoring a sentence alone, in a corpus, or word by word gives the same total.',
  ['inputs', 'configurations'], 'all models, vocabularies with classes, out-of-shortlist and unknown words, texts, batch sizes and option combinations',
  'The tests use a stub network with one probability table and two sentences; option and vocabulary combinations multiply.',
  ['theanolm/scoring/textscorer.py', 'theanolm/commands/score.py'],
  [('per-word scores', 'TextScorer.score_batch'), ('corpus perplexity', 'TextScorer.compute_perplexity'), ('single sentences', 'TextScorer.score_sequence / score_line')])

prop('C12', 'The score command reports every word and utterance correctly',
  'For every model and text (a plain or gzip file or the standard input), "theanolm score" prints for every non-empty utterance (with at least one word to predict) its log probability in the requested base for utterance scores, a log probability for each word with the right context for word scores, and the same totals, counts and perplexity in every output mode. With a subword marking, the probability of a merged word is the product of the probabilities of its pieces, no piece is lost or counted twice (a word boundary right after the sentence start is not a word), and the perplexity is per merged word.',
  ['inputs', 'configurations'], 'all texts incl. empty lines, unknown words and subword sequences, output modes, log bases, subword markings',
  'One test merges two fixed sentences; the command itself is never run.',
  ['theanolm/commands/score.py', 'theanolm/scoring/textscorer.py', 'theanolm/backend/filetypes.py'],
  [('output modes', 'score(), _score_text, _score_utterances'), ('subword merging', '_merge_subwords')])

prop('C13', 'Generated text is drawn from the model',
  'Every sampled sequence has the requested number of tokens (the sentence start included) after the given seed words, which it starts with, and contains only words that the model gives positive probability in their context, with words drawn from a class according to membership probability; the sample command prints each up to the first sentence end. With a model that leaves no choice the generated text is the only possible one, the sampled frequencies follow the model distribution, and a repeated random seed repeats the text.',
  ['inputs', 'configurations'], 'all models, vocabularies, sentence lengths, batch sizes and seed sequences',
  'The test draws from one untrained network and checks that special tokens are not produced.',
  ['theanolm/textsampler.py', 'theanolm/commands/sample.py'],
  [('step-wise sampling', 'TextSampler.generate')])

prop('C14', 'Lattice files are read and written without loss',
  'Reading any valid SLF or Kaldi lattice gives exactly its nodes, links, words, scores (converted to natural logarithms), times, scale factors, initial and final nodes; writing a lattice and reading it again preserves all of that, for every word spelling (in SLF, names starting with ! or # mean no word; in Kaldi lattices, links to the final node carry no word). Nodes are processed in topological order and a cyclic lattice is rejected when it is decoded; dividing a lattice list (a file or the standard input) into jobs assigns each lattice to exactly one job.',
  ['inputs', 'configurations'], 'all acyclic lattices with arbitrary words, log bases, node or link labels, null links, and numbers of jobs',
  'The tests read four fixed lattice files; label spellings, log bases, label placement and final weights vary independently.',
  ['theanolm/scoring/slflattice.py', 'theanolm/scoring/kaldilattice.py', 'theanolm/scoring/lattice.py', 'theanolm/scoring/latticebatch.py'],
  [('SLF parsing', 'SLFLattice'), ('Kaldi parsing', 'KaldiLattice'), ('writers', 'Lattice.write_slf / write_kaldi'), ('order', 'Lattice.sorted_nodes'), ('jobs', 'LatticeBatch')])

prop('C15', 'Unpruned lattice decoding finds all paths with their exact scores',
  'Without pruning, decoding any acyclic lattice returns each distinct word sequence of the lattice exactly once, with the score of its best path, sorted best first. The score is acoustic score plus language model scale times the interpolated lattice and network language model scores plus the word penalty for each word, where the network score is the sum of the word log probabilities the model gives (with the unknown-word options applied) including the sentence end. (With linear interpolation, which is applied to the totals of a path, the best-path claim is for word sequences that have one path.)',
  ['inputs', 'configurations'], 'all small acyclic lattices with null links, parallel paths and unknown words, models with classes, weights, scales, penalties and unknown-word options',
  'The tests decode fixed lattices with a stub network and check a handful of tokens.',
  ['theanolm/scoring/latticedecoder.py', 'theanolm/backend/probfunctions.py', 'theanolm/commands/decode.py'],
  [('token passing', 'LatticeDecoder.decode / _propagate'), ('score combination', 'Token.recompute_total'), ('unknown words', '_handle_unk_logprob')])

prop('C16', 'Pruning and recombination only ever lose worse hypotheses',
  'With any combination of token limit, beam, recombination order and relative pruning, given through the API or the `decode` command, every decoding result is a real path of the lattice with its exact score, results are sorted, and no result scores better than the exhaustive best, also when the same lattice has been decoded before. Recombination keeps the best of the hypotheses at a node that agree on the given number of last words, a token limit of N keeps the N best hypotheses of each node, and the beam drops only hypotheses that fall short of the best simultaneous one by the beam; with relative pruning by R, at a node that more than R hypotheses reach, both limits are divided by the number of hypotheses and multiplied by R, but not below the given minimums; so limits too wide to bind change nothing and a one-word lattice choice is never decided for the worse hypothesis.',
  ['inputs', 'configurations', 'schedules'], 'all small lattices and pruning parameter combinations, compared with a reference search',
  'The tests check pruning on one lattice with one or two settings.',
  ['theanolm/scoring/latticedecoder.py', 'theanolm/commands/decode.py'],
  [('pruning', 'LatticeDecoder._prune'), ('recombination', '_sorted_recombined_tokens')])

prop('C17', 'A rescored lattice contains exactly the decoded paths with right scores',
  'The lattice written after rescoring contains, for any determinized lattice and pruning parameters, the word sequence of every decoding result, and only word sequences of the original lattice; each path carries the total acoustic score and transition sequence of the original path, and language model scores whose sum is that of the original path plus the network language model score. The rescored lattice is itself a valid lattice, in the SLF and the Kaldi format.',
  ['inputs', 'configurations'], 'all small determinized lattices, pruning parameters incl. recombination, both output formats',
  'The tests compare a few numbers of two rescored lattices.',
  ['theanolm/scoring/rescoredlattice.py', 'theanolm/scoring/lattice.py', 'theanolm/commands/decode.py'],
  [('tree construction', 'RescoredLattice'), ('recombined paths', 'RescoredLattice.__init__')])

prop('C18', 'Log probability interpolation is exact and stable',
  'Linear interpolation of two log probabilities with any weight returns the log of the weighted sum of the probabilities without overflow or underflow for probabilities down to exp(-10^6), and log-linear interpolation returns the weighted sum of the logs. A log probability of minus infinity with weight zero is ignored, with positive weight it makes a log-linear result minus infinity; the result is symmetric when both the values and the weights are exchanged, lies between the two values, and grows with each of them.',
  ['inputs'], 'all pairs of log probabilities in (-inf, 0] incl. -inf and all weights in [0, 1]',
  'The tests evaluate a few points; underflow and zero weights are regions of a continuous input space.',
  ['theanolm/backend/probfunctions.py'],
  [('interpolation', 'interpolate_linear, interpolate_loglinear')])

prop('C19', 'Noise samples follow their distribution and the sampling-based costs use it',
  'Every noise distribution (uniform, log-uniform, multinomial with dampening) assigns probabilities that sum to one, draws only classes in range with positive probability, in the requested shape and with the stated frequencies, and distinct classes where a shared sample is drawn without replacement. The noise-contrastive and BlackOut costs equal their formulas, as documented in the code, evaluated on the drawn noise words, network outputs and noise probabilities, summed over exactly the unmasked words, with the noise shared among words as configured.',
  ['inputs', 'configurations'], 'all class counts, prior distributions, dampening values, sharing modes, sample counts and mini-batches',
  'The tests draw from small fixed distributions; cost values are not tested at all.',
  ['theanolm/backend/classdistribution.py', 'theanolm/network/samplingoutputlayer.py', 'theanolm/training/cost.py', 'theanolm/network/network.py'],
  [('distributions', 'UniformDistribution, LogUniformDistribution, MultinomialDistribution'), ('costs', 'NCECost, BlackoutCost'), ('noise logits', 'SamplingOutputLayer')])

prop('C20', 'The training cost is the mean cross-entropy of the real words',
  'The cross-entropy cost and the number of words computed for a mini-batch are, for every network and mini-batch, the negative log probabilities of the target classes summed over exactly the unmasked words (leaving out unknown targets when they are excluded), and the parameter gradient is the derivative of that mean plus the configured multiples of the L1 norm and the sum of squares of the parameters. Padding and masked positions have no influence on the update, and a mini-batch without any counted word changes nothing.',
  ['inputs', 'configurations'], 'all networks, mini-batches with different lengths, unknown words and exclusion setting',
  'No test computes a cost or gradient of a network.',
  ['theanolm/training/cost.py', 'theanolm/training/basicoptimizer.py'],
  [('cost', 'CrossEntropyCost'), ('gradients', 'BasicOptimizer')])

prop('C21', 'Optimizers take the published update step, with clipping and weights',
  'Each optimization method (SGD, Nesterov, AdaGrad, ADADELTA, RMSProp variants, Adam) changes the parameters, for any sequence of gradients and learning rates, as its published update rule says, with its running statistics carried from step to step. An update direction whose norm exceeds the limit is scaled to the limit and otherwise left unchanged, and the learning rate is multiplied by the mean of the file weights over the words of the mini-batch.',
  ['inputs', 'histories', 'configurations'], 'all sequences of updates, hyperparameters, norm limits and file weights',
  'The tests only check that training lowers a cost on a toy problem.',
  ['theanolm/training/*optimizer.py'],
  [('update rules', '_get_param_updates / _get_gradient_updates of each optimizer'), ('norm clipping', 'BasicOptimizer._normalize'), ('file weights', 'BasicOptimizer.update_minibatch')])

prop('C22', 'Interrupted training continues as if it had not been interrupted',
  'Saving the training state after any number of updates and continuing from it in a new trainer, network, optimizer and data iterator gives the same sequence of parameter values, learning rates, validation costs and training data as uninterrupted training, for every optimization method and any number of interruptions (dropout, noise samples and the random order of later epochs excepted). A saved state that lacks something or does not fit the network or the optimization method is rejected.',
  ['crash_points', 'histories', 'configurations'], 'all positions of interruption at a saved state, optimizers, corpora and validation schedules',
  'No test resumes a training run.',
  ['theanolm/training/trainer.py', 'theanolm/training/basicoptimizer.py', 'theanolm/parsing/shufflingbatchiterator.py', 'theanolm/network/network.py'],
  [('trainer state', 'Trainer.get_state / initialize'), ('optimizer state', 'BasicOptimizer.get_state / set_state'), ('iterator state', 'ShufflingBatchIterator.get_state / set_state')])

prop('C23', 'Training keeps the best validated model and anneals and stops as specified',
  'For every history of validation costs the model that training leaves behind is the last one whose validation statistic was better (by at least 0.1 %) than the best before it, validations happen at the configured frequency, each from the configured number of samples around the same point, and when more than the configured number of validations pass without improvement the best model is restored and the learning rate is halved. Each stopping condition ends training exactly when its rule says, within the configured minimum and maximum number of epochs.',
  ['histories', 'configurations'], 'all sequences of validation costs, patience, validation frequency, annealing and stopping settings',
  'The tests of stoppers and trainer run a few updates with fixed costs.',
  ['theanolm/training/trainer.py', 'theanolm/training/stoppers.py'],
  [('validation and annealing', 'Trainer._validate, _decrease_learning_rate'), ('candidate state', 'Trainer._set_candidate_state'), ('stopping rules', 'stoppers.py')])

prop('C24', 'Word class optimisation never lowers the likelihood and keeps exact counts',
  'Moving words between classes to improve the class bigram model never decreases the log likelihood of the corpus, a word is moved to the class that gives the largest increase, and no class becomes empty and no special token moves. After any sequence of moves the maintained class counts and log likelihood equal those computed from the corpus from scratch, both implementations agree, and repeating the moves comes to an end.',
  ['inputs', 'histories'], 'all corpora, numbers of classes and sequences of moves, for the NumPy and the Theano implementation',
  'The tests use one corpus of a few sentences and one or two moves.',
  ['wordclasses/bigramoptimizer.py', 'wordclasses/numpybigramoptimizer.py', 'wordclasses/theanobigramoptimizer.py'],
  [('evaluation of a move', '_evaluate'), ('bookkeeping of a move', '_move'), ('greedy search', 'move_to_best_class')])

prop('C25', 'Word classes written by wctool form a valid vocabulary',
  'For every corpus, vocabulary restriction and number of classes, wctool writes each word of its vocabulary exactly once with its class, in the classes and SRILM formats with probabilities that sum to one in each class in proportion to the word counts, and the language model trainer reads the file (plain or compressed) back as the same partition. No move of a single word to another class would improve the result.',
  ['inputs', 'configurations'], 'all corpora, vocabulary files, class counts and output formats',
  'wctool is not run by any test.',
  ['wordclasses/wctool.py', 'wordclasses/bigramoptimizer.py', 'theanolm/vocabulary/vocabulary.py'],
  [('output', 'wctool.save'), ('words and probabilities', 'BigramOptimizer.words')])

prop('C26', 'Corpus statistics count every word and bigram exactly',
  'Word counts and bigram counts of any set of plain or compressed text files equal those of the token sequences of their non-empty lines with sentence markers, independent of the order of the lines and of how they are divided into files, with words outside the vocabulary counted as <unk>. Computing them leaves the files at their beginning.',
  ['inputs'], 'all corpora divided into any number of files, vocabularies and file types',
  'The tests count one fixed corpus.',
  ['theanolm/vocabulary/statistics.py', 'theanolm/parsing/functions.py', 'theanolm/backend/filetypes.py'],
  [('counting', 'compute_word_counts, BigramStatistics'), ('files', 'TextFileType, get_file_type')])

prop('C27', 'Network descriptions are parsed completely and survive the model file',
  'Every valid description of a network gives a network with exactly the described inputs, layers, options, sizes and connections, in order, where omitted sizes and options take their documented defaults; storing the description in a model file and reading it back gives the same description, and a file with a different description is detected as incompatible. Descriptions with unknown elements, missing names or types, or references to later or undefined inputs are rejected.',
  ['inputs', 'configurations'], 'all network descriptions with up to a dozen inputs and layers, comments, and single differences between two descriptions',
  'The tests parse no description file at all.',
  ['theanolm/network/architecture.py', 'theanolm/network/network.py', 'theanolm/network/basiclayer.py'],
  [('parsing', 'Architecture.from_description'), ('persistence', 'Architecture.get_state / from_state / check_state')])

prop('C28', 'The train command trains the model that its options describe',
  'For every combination of training files (plain or compressed), vocabulary options, network description and training options, "theanolm train" leaves in the model file the vocabulary and the network description that were asked for, and the parameters that follow from its initial parameters by the requested optimization method, learning rate, momentum, decay rates, stability term, gradient normalization, regularization, cost function, noise distribution, dampening and sharing, data weights, sampling fraction, sequence length and batch size, where omitted options have their documented defaults. Validation, patience, stopping criterion and epoch limits act as documented, the printed perplexity is that of the saved model on the validation file, running the command again continues the training, and logging options change nothing. Contradictory options (more weights or sampling fractions than files, more noise samples than classes, parameters that are not connected to the output) end the command with an error and no trained model.',
  ['inputs', 'configurations', 'histories'], 'all command lines of the train command (except GPU devices, profiling and debugging), small corpora and networks, and repeated runs on the same model file',
  'The tests never run the command: how options reach the trainer, optimizer, cost, scorer and vocabulary is not tested at all.',
  ['theanolm/commands/train.py', 'theanolm/training/trainer.py', 'theanolm/training/cost.py', 'theanolm/backend/filetypes.py'],
  [('options', 'train.add_arguments / train.train'), ('vocabulary', 'train._read_vocabulary'), ('training', 'Trainer.train'), ('compressed text', 'map_file')])

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'],
                       'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                       'hook_needed': None}
            if p['observe']:
                anchors['observe_at'] = p['observe']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': anchors}, ensure_ascii=False) + '\n')
            assert len(p['title']) <= 80, p['title']
    done = [p for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))]
    manifest = {
        'version': 1,
        'setup_cmd': 'bash ./setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': './run.sh {} --tier quick'.format(p['id']),
            'thorough_cmd': './run.sh {} --tier thorough'.format(p['id']),
            'technique': p['technique'] or 'property-based testing (Hypothesis) against a reference model',
            'level': 'exploration',
            'level_note': p['note'] or 'Random search over generated cases with shrinking; no violation found within the explored cases. Trusts the reference model in the check, Hypothesis, NumPy, and Theano\'s NumPy execution mode.',
        } for p in done],
        'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in P if p not in done],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')

if __name__ == '__main__':
    main()
