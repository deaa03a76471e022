"""Entry point: run.py check C01 quick | replay FILE | one C01 INDEX."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import boot  # noqa: E402

if __name__ == "__main__":
    boot.set_env()
    sys.argv[0] = os.path.abspath(sys.argv[0])
    boot.boot()
    from sim import driver

    sys.exit(driver.main())
