static const unsigned long long NLCG = 227, NICG = 132;
