import sys
import traceback

if __name__ == "__main__":
    try:
        from vlib.harness import main
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
