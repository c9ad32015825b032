S=dict(property='C17',needs='a vector with four values in the deck',breaks='A vector of four values is accepted and the fourth is written past its end',
edits=[('Source/IO/Input/INIReader.cpp','        if (i == 3)\n','        if (i > 3)\n')],
demo=r'''
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/wait.h>
#include "INIReader.hh"
int main()
{
    std::ofstream("d.ini") << "[A]\nv = [1, 2, 3, 4]\n";
    if (fork() == 0)
    {
        INIReader r("d.ini");
        ThreeVector v = r.GetThreeVector("A", "v", ThreeVector(0, 0, 0));
        std::_Exit(7);
    }
    int s; wait(&s);
    std::printf("%x\n", s);
    return WIFEXITED(s) && WEXITSTATUS(s) == 1 ? 0 : 1;
}
''')
