"""setup_cmd: builds the sanitized libraries, tools and drivers from the committed files (the checks rebuild what is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "drivers")
D = sorted(f[:-3] for f in os.listdir(HERE) if f.endswith(".cc") and f != "mtstress.cc")
B = ["batch-tune", "forest-extractor", "hiero-extractor", "mt-evaluator", "mt-segmenter", "rescorer", "tokenizer", "train-caser", "travatar", "tree-converter"]
for what in (dict(variant="asan", bins=B, drivers=D), dict(variant="asan"), dict(variant="tsan"), dict(variant="plain", bins=B)):
    try:
        print(what["variant"], sorted(build.build(**what)))
    except build.BuildError as e:
        print(e)
