import importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), HERE, os.path.join(VERIF, 'checks')]
for path in ('/opt/venv/lib/python3.12/site-packages',):
    if os.path.isdir(path) and path not in sys.path:
        sys.path.append(path)

from index import MODULES  # noqa: E402
import vharness  # noqa: E402


def main():
    property_id = sys.argv[1]
    module_name = MODULES[property_id]
    if len(sys.argv) > 2 and sys.argv[2] == '--worker':
        importlib.import_module(module_name)
        vharness._worker_main(vharness.Property.registry[property_id], sys.argv[3:])
        return 0
    importlib.import_module(module_name)
    property_ = vharness.Property.registry[property_id]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return vharness.replay(property_, os.path.abspath(sys.argv[3]))
    return vharness._drive_and_report(property_, module_name)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
