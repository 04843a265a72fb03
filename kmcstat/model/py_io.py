"""Reference model: printing and loading."""


def prettyPrint(msg, output=None):
    if output is None:
        output = sys.stdout
    if MPICommons.isMaster():
        output.write(msg)
        output.write('\n')
    MPICommons.barrier()


def printHeader(output=None):
    if output is None:
        output = sys.stdout
    prettyPrint('# -----------------------------------------------------------------------------', output)
    prettyPrint('# KMCLib version 2.0-a1', output)
    prettyPrint('# Distributed under the GPLv3 license', output)
    prettyPrint('# Copyright (C)  2012-2016  Mikael Leetmaa', output)
    prettyPrint('# Developed by Mikael Leetmaa <leetmaa@kth.se>', output)
    prettyPrint('#', output)
    prettyPrint('# This program is distributed in the hope that it will be useful', output)
    prettyPrint('# but WITHOUT ANY WARRANTY; without even the implied warranty of', output)
    prettyPrint('# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the', output)
    prettyPrint('# LICENSE and README files, and the source code, for details.', output)
    prettyPrint('#', output)
    prettyPrint('# You should have received a copy of the GNU General Public License version 3', output)
    prettyPrint('# (GPLv3) along with this program. If not, see <http://www.gnu.org/licenses/>.', output)
    prettyPrint('# -----------------------------------------------------------------------------', output)
    prettyPrint('', output)


def KMCConfigurationFromScript(script_file_path):
    return getScriptComponent(script_file_path, KMCConfiguration)


def KMCInteractionsFromScript(script_file_path):
    return getScriptComponent(script_file_path, KMCInteractions)


def KMCLatticeModelFromScript(script_file_path):
    return getScriptComponent(script_file_path, KMCLatticeModel)


def getScriptComponent(script_file_path, component_type):
    global_dict = {}
    try:
        with open(script_file_path, 'rb') as script_file:
            exec(compile(script_file.read(), script_file_path, 'exec'), global_dict)
    except IOError as e:
        raise Error()
    for key in global_dict:
        test_obj = global_dict[key]
        if isinstance(test_obj, component_type):
            return test_obj
    return None
