"""Builds the harness against /repo (dependencies included), so that the checks only rebuild what changed."""
import sys
import lib

if __name__ == "__main__":
    try:
        print(f"harness built in {lib.build():.0f}s")
    except lib.ToolError as e:
        sys.exit(str(e))
