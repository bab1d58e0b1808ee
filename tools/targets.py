def define(b):
    b.target("stream", ["harness/stream.cc"], b.KLM_UTIL + b.KLM_STREAM, b.BOOST + b.COMPRESS)
    b.target("lmplz", ["harness/lmplz.cc"], b.KLM_UTIL + b.KLM_STREAM + b.KLM_LM + b.KLM_BUILDER, b.BOOST + b.COMPRESS,
             renamed=[("klm/lm/builder/lmplz_main.cc", "lmplz_main")])
    b.target("filepiece", ["harness/filepiece.cc"], b.KLM_UTIL, b.BOOST + b.COMPRESS)
    b.target("lm", ["harness/lm.cc"], b.KLM_UTIL + b.KLM_LM, b.BOOST + b.COMPRESS, flags=["-DCDEC_SIMULATION=64"],
             renamed=[("klm/lm/build_binary_main.cc", "build_binary_main")])
    b.target("sentserver", ["harness/sentserver.cc"], [], [], harness_flags=["-fno-sanitize=thread"],
             renamed=[("training/utils/sentserver.cc", "sentserver_main"), ("training/utils/sentclient.cc", "sentclient_main")])
    b.target("extmetric", ["harness/extmetric.cc"], b.CDEC_UTILS + b.MTEVAL, ["-lz"], harness_flags=["-fno-sanitize=thread"])
    b.target("lmclient", ["harness/lmclient.cc"], b.CDEC_UTILS + ["decoder/ff.cc"], ["-lz"], flags=["-ffunction-sections"], harness_flags=["-fno-sanitize=thread", "-ffunction-sections"], ldflags=["-Wl,--gc-sections"])
    b.target("extractor", ["harness/extractor.cc"], ["extractor/*.cc", "!*_test.cc", "!*/run_extractor.cc", "!*/sacompile.cc", "!*/extract.cc", "extractor/features/*.cc", "!*_test.cc", "utils/filelib.cc", "utils/gzstream.cc"],
             b.BOOST + ["-lz"], flags=["-fopenmp", "-DSIM_STRINGS", "-I" + b.REPO + "/extractor", "-I" + b.REPO + "/extractor/features"], extra_sim=["sim/omp.cc"], harness_flags=["-fno-sanitize=thread", "-USIM_STRINGS"],
             renamed=[("extractor/run_extractor.cc", "run_extractor_main"), ("extractor/sacompile.cc", "sacompile_main"), ("extractor/extract.cc", "extract_main")])
    b.target("textfile", ["harness/textfile.cc"], b.CDEC_UTILS, ["-lz"])
    b.target("filter", ["harness/filter.cc"], b.KLM_UTIL + b.KLM_LM + ["klm/lm/filter/arpa_io.cc", "klm/lm/filter/phrase.cc", "klm/lm/filter/vocab.cc"], b.BOOST + b.COMPRESS,
             renamed=[("klm/lm/filter/filter_main.cc", "filter_main")])
    b.target("optimizer", ["harness/optimizer.cc"], ["training/utils/optimize.cc"], [], harness_flags=["-fno-sanitize=thread"])
    b.target("decoder", ["harness/decoder.cc"], [], b.BOOST + b.COMPRESS, untsan=b.CDEC_UTILS + ["utils/b64tools.cc", "utils/maxent.cpp"] + b.MTEVAL + b.DECODER + ["gen:rule_lexer.cc"] + b.KSEARCH + b.KLM_UTIL + b.KLM_LM, harness_flags=["-fno-sanitize=thread"],
             renamed=[("decoder/cdec.cc", "cdec_main")])
    b.target("mira", ["harness/mira.cc"], [], b.BOOST + b.COMPRESS, untsan=b.CDEC_UTILS + ["utils/b64tools.cc", "utils/maxent.cpp"] + b.MTEVAL + b.DECODER + ["gen:rule_lexer.cc"] + b.KSEARCH + b.KLM_UTIL + b.KLM_LM, harness_flags=["-fno-sanitize=thread"],
             renamed=[("training/mira/kbest_cut_mira.cc", "mira_main"), ("decoder/cdec.cc", "cdec_main")])
