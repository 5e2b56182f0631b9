#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   -- one check; run.py setup -- parse the specs."""
import os, sys, glob, subprocess, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import common

MODULES = {"P29": "p_chart", "P28": "p_simple", "P27": "p_front", "P26": "p_hpack", "P23": "p_spdy4", "P24": "p_bohe", "P18": "p_zlib", "P19": "p_indep", "P20": "p_fork", "P21": "p_resend", "P22": "p_ids", "P07": "p_delta", "P25": "p_delta", "P08": "p_lru", "P09": "p_bits", "P10": "p_huff", "P12": "p_fn", "P13": "p_fn", "P14": "p_fn", "P01": "p_http2", "P02": "p_http2", "P15": "p_harness", "P16": "p_harness", "P17": "p_harness",
           "P05": "p_delta2", "P06": "p_delta2",
           "P03": "p_headerdiff", "P04": "p_headerdiff", "P11": "p_simple"}

MBT = "TLA+ spec, TLC model checking + byte-level trace validation of the real code"
FNT = "TLA+ spec as oracle: TLC validates recorded calls of the real code"
HNT = "TLA+ harness model checked by TLC + trace validation of whole recorded runs"
ABOUT = {   # property -> technique, level, what it assures
    "P01": (MBT, "model_checking",
            "Design model exhaustive for a 5-header universe, 4 capacities; the code is bound by replaying one "
            "history per model transition plus long random histories. Beyond those histories nothing is claimed."),
    "P02": (MBT, "model_checking",
            "Every recorded frame is parsed byte by byte by the TLA+ specification against its own table; the real "
            "decoder is fed legal frame sequences simulated from the specification. Trusts TLC and Jython."),
    "P03": (MBT, "model_checking",
            "Design model of the indexing table, age replacement and delta exhaustive on a small universe; the code is "
            "bound by replaying model histories and long random histories under every parameter combination."),
    "P04": (MBT, "model_checking",
            "Every recorded frame is decoded bit by bit by the TLA+ specification with its own table and Huffman tree; "
            "legal frames generated by TLC are fed to the real decoder."),
    "P05": (MBT, "model_checking",
            "Design model of storage, header groups and eviction exhaustive on a small universe; the code is bound by "
            "replaying model histories and long random histories over hosts and every parameter combination."),
    "P06": (MBT, "model_checking",
            "Every recorded frame is decoded from its bits by the TLA+ specification (Delta2Trace.tla) with its own "
            "storage, groups and Huffman tree; storage bounds are invariants of the decoded run."),
    "P07": (MBT, "model_checking",
            "Design model of storage, numbering, groups and eviction exhaustive on a small universe; the code is bound by "
            "replaying its histories and long random ones (limits down to 0, >256 operations, wrapping numbers)."),
    "P25": (MBT, "model_checking",
            "Every recorded frame is decoded by DeltaTrace.tla with its own storage, numbering, groups and Huffman tree; "
            "legal frame sequences simulated from DeltaGen.tla are fed to the real decoder."),
    "P09": ("TLA+ bit queue: TLC model checking + trace validation of recorded operations (Python and C++)", "model_checking",
            "The packed implementation refines a FIFO of bits (BitPackModel.tla, exhaustive small bounds); recorded operation "
            "sequences of all Python variants and the C++ class are validated against BitFifo.tla."),
    "P10": ("TLA+ code-book spec as oracle: TLC validates code tables and coded texts (Python and C++)", "model_checking",
            "HuffModel.tla checks the optimality criterion exhaustively for small tables; code tables and encodings of all "
            "Python variants and the C++ class are validated against HuffCode.tla."),
    "P18": ("DEFLATE specified in TLA+: TLC inflates every recorded output bit by bit", "trace_validation",
            "Inflate.tla/DeflateTrace.tla decode the recorded outputs with their own window and compare the text with the "
            "HTTP/1 grammar or the SPDY/3 block; zlib itself is not trusted."),
    "P19": (MBT, "model_checking",
            "Interleave.tla enumerates the schedules of two or three instances; sampled ones and long random ones are "
            "played on the real codecs, each call compared with the instance's run alone in a fresh process."),
    "P20": ("TLA+ model of codec, process and pipes (TLC) + trace validation of recorded exchanges", "model_checking",
            "ForkModel.tla is checked for pipes of 3 bytes with every split of reads and writes; its histories and long "
            "random ones are played against scripted processes and the bytes seen on both ends are validated."),
    "P21": ("TLA+ decoders of four formats: trace validation of what a repeated message costs", "trace_validation",
            "The contexts decoded by the specification say what is stored and shared at the moment a message is sent again; "
            "the parsed operations of its frame must then be references only, or none at all."),
    "P22": (MBT, "model_checking",
            "IdModel.tla is checked for small ranges; its histories and long random ones (ranges up to 65536, several "
            "stores) are played on the five Python and two C++ stores, every identifier judged by IdTrace.tla."),
    "P24": ("TLA+ meanings of typed header values as oracle: TLC reads recorded encodings and frames", "model_checking",
            "BoheModel.tla checks numbers, calendar and byte decodings for small values; every recorded encoding of the three "
            "variants and every frame of the bohe codec is read by BoheTrace.tla and compared with what the value denotes."),
    "P27": ("TLA+ text grammar and DEFLATE as oracle: TLC reads recorded parses and SPDY/3 frames of the C++ code", "trace_validation",
            "Generated texts are parsed by the C++ parser and by CcParseTrace.tla; every frame of the C++ SPDY/3 formatter is "
            "inflated bit by bit by DeflateTrace.tla and compared with the pairs put in."),
    "P26": (MBT, "model_checking",
            "HpackModel.tla: both ends' tables exhaustive on a small universe with fields of the size of the table; every block "
            "of its histories and of long random ones is read by HpackTrace.tla; blocks simulated from HpackGen.tla are decoded."),
    "P23": (MBT, "model_checking",
            "Spdy4Model.tla: storage, groups and eviction exhaustive on a small universe; every frame of its histories and of "
            "long random ones is read bit by bit by Spdy4Trace.tla, with storage of its own, against the headers passed in."),
    "P08": (MBT, "model_checking",
            "Lru.tla is model-checked for small limits; each model history and long random ones are replayed on the real "
            "LruStorage, comparing evictions, byte and item counts, numbers, look-ups and searches at every step."),
    "P11": (MBT, "model_checking",
            "Reference model of both ends checked by TLC; recorded histories of the real codec are decoded by the "
            "specification (SimpleCodec.tla) and compared with what was sent."),
    "P29": ("TLA+ meaning of a chart as oracle: TLC compares recorded pages with their tables", "trace_validation",
            "The page's scripts run in node against a stand-in for d3; every line, label and note drawn is compared with the "
            "tables by Chart.tla, whose rules ChartModel.tla checks on all small tables."),
    "P28": (MBT, "model_checking",
            "HttpDateModel.tla checks every day of a span of years in the three written forms; recorded histories of the real "
            "codec with the date option are read by SimpleTrace.tla, dates judged by HttpDate.tla."),
    "P12": (FNT, "trace_validation",
            "Every recorded call of format_http1/parse_http1 over generated header sets is checked against the TLA+ "
            "text grammar (Http1.tla); the round-trip law itself is model-checked in the specification."),
    "P13": (FNT, "trace_validation",
            "Generated HAR logs (schemes, ports, missing Host, repeats, status text) are converted by the real code "
            "and every result is compared with the conversion function of Har.tla."),
    "P14": (FNT, "trace_validation",
            "Generated message lists go through every streamifier; TLC checks the partition of Streams.tla."),
    "P15": (HNT, "model_checking",
            "The harness model is checked exhaustively for small sessions; whole runs of the real CompressionTester with "
            "scripted faulty codecs are recorded at the codec interface and validated against HarnessTrace.tla."),
    "P16": (HNT, "model_checking",
            "As P15: isolation and accounting are invariants of HarnessModel.tla and of every recorded run."),
    "P17": (HNT, "model_checking",
            "As P15: printed summaries and TSV rows are parsed and recomputed by the specification from the sizes "
            "recorded at the codec interface."),
}
WHY_NOT = {}



def setup():
    bad = 0
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.tla"))):
            p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", common.TLA_CP, "tla2sany.SANY", f],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               cwd=os.path.join(HERE, "spec"))
            if p.returncode != 0:
                bad = 1
                print(f, p.stdout.decode()[-2000:])
    print("setup", "failed" if bad else "ok")
    return bad


def main():
    if sys.argv[1] == "setup":
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = __import__(MODULES[prop])
    c = common.Check(prop, tier, seed)
    try:
        mod.main(c)
        return c.finish()
    except common.Machinery as e:
        print("MACHINERY: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
