S=dict(property='C25',needs='a table directory without log_chi.table',breaks='A missing chi axis of the pair energy table is not noticed',
edits=[('Source/Physics/Processes/NonLinearBreitWheeler.cpp','    if (!chiFile)\n','    if (!epsilonFile)\n')],
demo=r'''
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/wait.h>
#include "NonLinearBreitWheeler.hh"
#include "StaticEMField.hh"
int main()
{
    std::string t = getenv("QED_TABLES_PATH");
    if (system(("cp -r " + t + " tables && rm tables/log_chi.table").c_str())) return 0;
    setenv("QED_TABLES_PATH", "tables", 1);
    if (fork() == 0)
    {
        StaticEMField f(ThreeVector(1, 0, 0), ThreeVector(0, 0, 0));
        NonLinearBreitWheeler p(&f, 1.0);
        std::_Exit(7);
    }
    int s; wait(&s);
    std::printf("%x\n", s);
    return WIFEXITED(s) && WEXITSTATUS(s) == 1 ? 0 : 1;
}
''')
