cd /tmp/pt && bash /verif/lib/build.sh /tmp/pt/b gcc "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all" lib >/tmp/pt/log 2>&1 || tail -20 /tmp/pt/log; g++ -std=c++17 -O1 -w -Ib/include -o pt pt.cpp -fsanitize=address,undefined -Wl,--start-group b/build/lib/libre.a b/build/lib/libfsm.a -Wl,--end-group -lpcre2-8
g++ -std=c++17 -O2 -w -Ib/include -o enum enum.cpp -fsanitize=address,undefined -Wl,--start-group b/build/lib/libre.a b/build/lib/libfsm.a -Wl,--end-group -lpcre2-8
