// Switching between the stacks of fibers, for mockcl and mockcuda.
//
// mock_switch(from, to) keeps the registers that a function has to keep (of
// x86-64) on the stack it leaves, puts that stack into *from and continues
// with the one that is `to`. swapcontext does the same with two calls of the
// system, which take most of the time of short threads.
#pragma once
#include <cstddef>

extern "C" void mock_switch(void** from, void* to);
asm(R"(
    .text
    .globl mock_switch
    .type mock_switch, @function
mock_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .size mock_switch, .-mock_switch
)");

// A stack which continues with the function `entry` that does not return: six
// registers, the address of the function, and the end of backtraces.
inline void* mock_stack(char* stack, size_t size, void (*entry)())
{
    void** top = (void**)(stack + size);
    *--top = nullptr;
    *--top = (void*)entry;
    for (int i = 0; i < 6; ++i) *--top = nullptr;
    return top;
}
