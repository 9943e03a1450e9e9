"""Entry point: main.py <property id>."""

from __future__ import annotations

import importlib
import logging
import sys
import traceback
import warnings


def main() -> int:
    pid = sys.argv[1]
    logging.disable(logging.WARNING)
    warnings.simplefilter("ignore")
    from common import Check, MachineryError  # noqa: PLC0415

    check = Check(pid)
    try:
        import ampform_dpd  # noqa: PLC0415

        if not ampform_dpd.__file__.startswith("/repo/src/"):
            msg = f"testing {ampform_dpd.__file__} instead of /repo"
            raise MachineryError(msg)
        importlib.import_module(f"prop_{pid.lower()}").run(check)
        return check.finish()
    except MachineryError as e:
        print(f"ERROR of the check {pid}: {e}", file=sys.stderr)
        return 2
    except Exception as e:  # noqa: BLE001
        text = traceback.format_exc()
        print(text, file=sys.stderr)
        if "/repo/src/" not in text:
            return 2
        check.violations.append({
            "clauses": ["code raised " + type(e).__name__], "event": {"label": "unexpected exception", "text": text},
        })
        return check.finish()
    finally:
        check.scratch.cleanup()


if __name__ == "__main__":
    sys.exit(main())
