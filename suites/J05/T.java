package com.example.rust;
class T { static void h_history_long() { H.history(4); } }
